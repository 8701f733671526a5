"""C01: no command is served on a connection that has not authenticated."""
import random

from lib import proto as P
from lib.sim import (Client, Factory, ProtocolError, Raw, ServerClosed, Sim, Violation)
from lib.authlib import CONFIGS, config, Users, native_ok

COMMANDS = {
    "query": lambda caps: P.com_query(caps, b"SELECT 1 FROM t"),
    "set": lambda caps: P.com_query(caps, b"SET NAMES latin1"),
    "kill": lambda caps: P.com_query(caps, b"KILL 1"),
    "ping": lambda caps: bytes([P.COM_PING]),
    "init_db": lambda caps: bytes([P.COM_INIT_DB]) + b"db",
    "field_list": lambda caps: bytes([P.COM_FIELD_LIST]) + b"t\0",
    "prepare": lambda caps: bytes([P.COM_STMT_PREPARE]) + b"select ?",
    "execute": lambda caps: P.com_stmt_execute(caps, 0, []),
    "fetch": lambda caps: bytes([P.COM_STMT_FETCH]) + bytes(4) + b"\1\0\0\0",
    "reset_stmt": lambda caps: bytes([P.COM_STMT_RESET]) + bytes(4),
    "reset": lambda caps: bytes([P.COM_RESET_CONNECTION]),
    "debug": lambda caps: bytes([P.COM_DEBUG]),
    "long_data": lambda caps: bytes([P.COM_STMT_SEND_LONG_DATA]) + bytes(6) + b"x",
    "close_stmt": lambda caps: bytes([P.COM_STMT_CLOSE]) + bytes(4),
    "junk": lambda caps: b"\xfe\1\2\3",
}


def served(calls: list) -> list:
    return [c for c in calls if c[0] != "close"]


def only_err(c: Client, what: str) -> None:
    """Everything the server sent from here on is ERR"""
    b = c.buffer()
    while b:
        if len(b) < 4 or len(b) < 4 + int.from_bytes(b[:3], "little"):
            raise Violation(f"{what}: incomplete packet {b[:60]!r}")
        n = int.from_bytes(b[:3], "little")
        if b[4:5] != b"\xff":
            raise Violation(f"{what}: answered with {b[:60]!r}")
        c.consume(4 + n)
        b = c.buffer()


def follow_up(c: Client, session: Raw, rng: random.Random, good: bytes, pipelined: bool, passed=()) -> None:
    """After the exchange ended in ERR: nothing is served, and the session runs as nobody who hasn't passed"""
    runs_as(session, passed)
    base = list(served(session.calls))
    seqs = [0, 1, 2, 3, 4, 5]
    todo = [(k, COMMANDS[k](c.caps)) for k in rng.sample(sorted(COMMANDS), 5)]
    # a good handshake response or a good COM_CHANGE_USER, too late
    todo.insert(rng.randrange(len(todo) + 1), ("credentials", good))
    for k, payload in todo:
        seq = rng.choice([0, 0, 0, rng.choice(seqs)])
        if k == "credentials":
            seq = rng.choice([0, c.seq])
        c.send_raw(P.frames(payload, seq))
        if not pipelined:
            c.sim.settle()
            only_err(c, f"{k} after the failed exchange")
    c.sim.settle()
    only_err(c, "commands after the failed exchange")
    if served(session.calls) != base:
        raise Violation(f"the application was called after the failed exchange: {served(session.calls)[len(base):]}")
    c.disconnect()
    c.sim.settle()
    only_err(c, "after the disconnect")
    if served(session.calls) != base:
        raise Violation("the application was called after the failed exchange")
    runs_as(session, passed)


def runs_as(session: Raw, passed) -> None:
    if session.username is not None and session.username not in passed:
        raise Violation(f"the session runs as {session.username!r}, authenticated: {list(passed)}")


def answer(kind: str, rng: random.Random, user, nonce: bytes, plugin: bytes) -> bytes:
    pw = (user.password if user and user.password is not None else "nobody").encode()
    good = P.native_scramble(pw, nonce) if plugin == b"mysql_native_password" else pw + b"\0"
    if kind == "good":
        return good
    if kind == "empty":
        return b""
    if kind == "wrong":
        other = pw + b"x"
        return P.native_scramble(other, nonce) if plugin == b"mysql_native_password" else other + b"\0"
    if kind == "truncated":
        return good[:rng.randrange(len(good))] if good else b"\0"
    if kind == "flip":
        if not good:
            return b"\1"
        i = rng.randrange(len(good) * 8)
        g = bytearray(good)
        g[i // 8] ^= 1 << (i % 8)
        return bytes(g)
    if kind == "othernonce":
        return P.native_scramble(pw or b"x", bytes(rng.randrange(1, 255) for _ in range(20)))
    if kind == "hash":
        return bytes.fromhex(P.native_auth_string(pw))
    if kind == "zero":
        return bytes(20)
    return rng.randbytes(rng.randrange(0, 40))


KINDS = ["good", "empty", "wrong", "truncated", "flip", "othernonce", "hash", "zero", "garbage"]
PLUGINS = [b"mysql_native_password", b"mysql_clear_password", b"mysql_no_login", b"caching_sha2_password",
           b"", b"two_step_client", b"mysql_old_password", b"any"]


def exchange(c: Client, rng: random.Random, cfg, user, kinds: list) -> tuple:
    """Answer challenges until OK/ERR/close.  Returns (packet or None, evidence that the client was entitled)"""
    entitled = False
    n = 0
    while True:
        try:
            p = c.expect()
        except ServerClosed:
            return None, entitled
        if p[0] in (0, 0xFF):
            return p, entitled
        if p[0] == 0xFE:
            r = P.R(p)
            r.take(1)
            plugin, nonce = r.znull(), r.rest()
        else:
            plugin, nonce = b"more", p[1:]
        kind = kinds[n] if n < len(kinds) else rng.choice(KINDS)
        n += 1
        if n > 6:
            raise Violation("the exchange does not end")
        data = cfg.respond(kind, rng, user, plugin, nonce, answer)
        entitled = cfg.entitled(user, plugin, nonce, data)
        c.send(data)
        c.sim.settle()


def handshake(seed: int) -> None:
    rng = random.Random(seed)
    cfg = config(rng)
    f = Factory(lambda: Raw())
    with Sim(session_factory=f, identity_provider=cfg.provider) as sim:
        caps = P.BASE_CAPS
        for cap in (P.DEPRECATE_EOF, P.QUERY_ATTRIBUTES, P.LENENC_CLIENT_DATA):
            if rng.random() < 0.4:
                caps |= cap
        if rng.random() < 0.1:
            caps &= ~P.PLUGIN_AUTH
        if rng.random() < 0.05:
            caps &= ~P.SECURE_CONNECTION
        c = sim.connect(caps=caps)
        try:
            hs = c.greet()
        except ServerClosed:
            if served(f.sessions[0].calls if f.sessions else []):
                raise Violation("served")
            return
        c.caps = caps & hs.caps
        user = cfg.pick(rng)
        name = user.name if user else rng.choice(["nobody", "", "\u00e9t\u00e9", "root"])
        if user is None and name in cfg.users:
            name = "nobody!"
        plugin = rng.choice(PLUGINS) if rng.random() < 0.6 else b"mysql_native_password"
        kind = rng.choice(KINDS)
        data = cfg.respond(kind, rng, user, plugin, hs.nonce.rstrip(b"\0"), answer)
        if not caps & P.PLUGIN_AUTH:
            plugin = b""
        # entitled by the optimistic response?
        ent = cfg.entitled(user, plugin, hs.nonce, data)
        payload = P.handshake_response(c.caps, name.encode(), data[:255], 45, None, plugin)
        good_user = cfg.any_good()
        good = P.handshake_response(c.caps, good_user.name.encode(), b"", 45, None, plugin)
        mutate = rng.random()
        if mutate < 0.15:
            payload = payload[:rng.randrange(len(payload))]
        elif mutate < 0.25:
            b = bytearray(payload)
            b[rng.randrange(len(b))] = rng.choice([0, 255, 250, 251, 252, 1, rng.randrange(256)])
            payload = bytes(b)
            mutate = -1
        pipelined = rng.random() < 0.3
        good_seq = c.seq
        seq = good_seq if rng.random() < 0.95 else rng.choice([0, 2, 5])
        c.send(payload, seq)
        sim.settle()
        if seq != good_seq:
            only_err(c, "handshake response with a wrong sequence number")
            p, ent2 = None, False
        else:
            p, ent2 = exchange(c, rng, cfg, user, [rng.choice(KINDS)])
        if p is not None and p[0] == 0:
            if mutate == -1:
                # the mutated packet may be another user's valid one; only check that the identity is a user's
                s = f.sessions[0]
                if s.username is not None and not cfg.may_be(s.username):
                    raise Violation(f"the session runs as {s.username!r}")
                return
            if not (ent or ent2):
                raise Violation(f"authenticated without credentials: user {name!r} plugin {plugin!r} {kind}")
            s = f.sessions[0]
            if user is None or s.username != user.identity:
                raise Violation(f"the session runs as {s.username!r}, the plugin vouched for {user and user.identity!r}")
            c.alive()
            return
        s = f.sessions[0]
        if served(s.calls):
            raise Violation(f"the application was called although authentication failed: {s.calls}")
        follow_up(c, s, rng, good, pipelined, [user.identity] if user and (ent or ent2) else [])


def early(seed: int) -> None:
    """Commands sent along with, or instead of, a failing handshake response"""
    rng = random.Random(seed)
    cfg = config(rng)
    f = Factory(lambda: Raw())
    with Sim(session_factory=f, identity_provider=cfg.provider) as sim:
        c = sim.connect()
        try:
            hs = c.greet()
        except ServerClosed:
            return
        c.caps = P.BASE_CAPS & hs.caps
        data = b""
        if rng.random() < 0.7:
            data += P.frames(P.handshake_response(c.caps, b"nobody!", b"\1" * 20), 1)
        cmds = [COMMANDS[k](c.caps) for k in rng.sample(sorted(COMMANDS), 4)]
        seq = rng.choice([0, 1, 2])
        for x in cmds:
            data += P.frames(x, seq)
            seq = rng.choice([0, seq + 1])
        c.tr.client_send(data)
        sim.settle()
        only_err(c, "commands before authentication")
        if served(f.sessions[0].calls):
            raise Violation(f"the application was called before authentication: {f.sessions[0].calls}")


def change_user(seed: int) -> None:
    rng = random.Random(seed)
    cfg = config(rng, reachable=True)
    f = Factory(lambda: Raw(lambda s, q, a: ([(1,)], ["x"])))
    with Sim(session_factory=f, identity_provider=cfg.provider) as sim:
        caps = P.BASE_CAPS
        for cap in (P.DEPRECATE_EOF, P.QUERY_ATTRIBUTES):
            if rng.random() < 0.4:
                caps |= cap
        c = sim.connect(caps=caps)
        first = cfg.any_good()
        cfg.login(c, first)
        s = f.sessions[0]
        if s.username != first.identity:
            raise Violation(f"the session runs as {s.username!r}, expected {first.identity!r}")
        c.prepare("select 1")
        st = c.execute(0, cursor=True)
        hs = c.hs
        passed = [first.identity]
        for _ in range(rng.randrange(1, 4)):
            user = cfg.pick(rng)
            name = user.name if user else "nobody!"
            plugin = rng.choice(PLUGINS)
            kind = rng.choice(KINDS)
            nonce = hs.nonce.rstrip(b"\0")
            data = cfg.respond(kind, rng, user, plugin, nonce, answer)
            ent = cfg.entitled(user, plugin, nonce, data)
            payload = P.change_user(c.caps, name.encode(), data[:255], b"db", 45, plugin)
            mutate = rng.random()
            if mutate < 0.15:
                payload = payload[:rng.randrange(1, len(payload))]
            before = served(s.calls)
            c.send(payload, 0)
            sim.settle()
            p, ent2 = exchange(c, rng, cfg, user, [rng.choice(KINDS)])
            if p is not None and p[0] == 0:
                if not (ent or ent2) and mutate >= 0.15:
                    raise Violation(f"COM_CHANGE_USER accepted without credentials: {name!r} {plugin!r} {kind}")
                if mutate >= 0.15 and s.username != user.identity:
                    raise Violation(f"the session runs as {s.username!r} after COM_CHANGE_USER to {user.identity!r}")
                if not cfg.may_be(s.username):
                    raise Violation(f"the session runs as {s.username!r}")
                passed.append(s.username)
                c.alive()
                continue
            if served(s.calls) != before:
                raise Violation(f"the application was called by a failed COM_CHANGE_USER: {served(s.calls)[len(before):]}")
            good = P.change_user(c.caps, first.name.encode(),
                                 P.native_scramble((first.password or "").encode(), nonce), b"", 45)
            if user and (ent or ent2):
                passed.append(user.identity)
            follow_up(c, s, rng, good, rng.random() < 0.4, passed)
            return


def failing(seed: int) -> None:
    """An identity provider or plugin that raises"""
    rng = random.Random(seed)
    cfg = config(rng, reachable=True)
    where = rng.choice(["get_user", "auth", "check"])
    f = Factory(lambda: Raw())
    cfg.break_at(where, lambda name: name == "broken")
    passed = []
    with Sim(session_factory=f, identity_provider=cfg.provider) as sim:
        c = sim.connect()
        if rng.random() < 0.5:
            first = cfg.any_good()
            cfg.login(c, first)
            before = served(f.sessions[0].calls)
            passed = [first.identity]
            c.send(P.change_user(c.caps, b"broken", b"x" * 20, b"", 45, b"mysql_native_password"), 0)
        else:
            hs = c.greet()
            c.caps = P.BASE_CAPS & hs.caps
            before = []
            c.send(P.handshake_response(c.caps, b"broken", b"x" * 20))
        sim.settle()
        p, ent = exchange(c, rng, cfg, None, ["garbage"])
        if p is not None and p[0] == 0:
            raise Violation("authenticated although the provider failed")
        s = f.sessions[0]
        if served(s.calls) != before:
            raise Violation("served although the provider failed")
        follow_up(c, s, rng, P.handshake_response(c.caps, b"broken", b""), False, passed)


SCENARIOS = {"handshake": handshake, "early": early, "change_user": change_user, "failing": failing}


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    base = seed * 1000003
    for i in range(3500 * n):
        yield "handshake", {"seed": base + i}
        if i % 2 == 0:
            yield "change_user", {"seed": base + i}
        if i % 5 == 0:
            yield "early", {"seed": base + i}
            yield "failing", {"seed": base + i}
