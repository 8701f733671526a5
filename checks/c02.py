"""C02: a password proof is accepted iff it fits this connection's nonce and secret."""
import hashlib
import itertools
import random

from lib import proto as P
from lib.authlib import Account, Config
from lib.sim import Factory, ProtocolError, Raw, ServerClosed, Sim, Violation
from mysql_mimic.auth import (AbstractClearPasswordAuthPlugin, IdentityProvider, NativePasswordAuthPlugin,
                              NoLoginAuthPlugin, User)

NATIVE = b"mysql_native_password"
PASSWORDS = ["a", "password", "p\u00e4ssw\u00f6rd", "\u5bc6\u7801", "\U0001f511", " ", "x" * 300, "nul\0byte", "\0", "'\"\\"]


class Prov(IdentityProvider):
    """Native users; `first` is the default plugin"""

    def __init__(self, users, first="native", cached=False):
        self.users = users
        self.first = first
        self.cached = cached
        self._plugins = None

    def get_plugins(self):
        if self._plugins is None or not self.cached:
            n, l, c = NativePasswordAuthPlugin(), NoLoginAuthPlugin(), ClearP(self.users)
            self._plugins = {"native": [n, l, c], "nologin": [l, n, c], "clear": [c, n, l]}[self.first]
        return self._plugins

    async def get_user(self, username):
        return self.users.get(username)


class ClearP(AbstractClearPasswordAuthPlugin):
    name = "clear"
    log = []
    prefix = "id-"

    def __init__(self, users):
        self.users = users

    async def check(self, username, password):
        ClearP.log.append((username, password))
        u = self.users.get(username)
        return (self.prefix and self.prefix + username) if u and u.auth_string == password else None


def native(name, password=None, old=None, raw=None):
    return User(name=name, auth_plugin="mysql_native_password",
                auth_string=raw if raw is not None else
                (NativePasswordAuthPlugin.create_auth_string(password) if password else None),
                old_auth_string=NativePasswordAuthPlugin.create_auth_string(old) if old else None)


def nonce_of(data: bytes) -> bytes:
    if len(data) != 21 or data[20] != 0:
        raise Violation(f"the challenge is not 20 bytes and a NUL: {data!r}")
    n = data[:20]
    if 0 in n:
        raise Violation(f"NUL in the nonce {n!r}")
    if max(n) > 127:
        raise Violation(f"nonce is not ASCII {n!r}")
    return n


ROUTES = ["optimistic", "switch", "more", "cu_reuse", "cu_switch", "cu_more"]


def attempt(provider, name, route, make, session_log=None):
    """Authenticate through a route with make(nonce) as the response.  Returns (accepted, username, nonce)"""
    f = Factory(lambda: Raw(lambda s, q, a: ([(1,)], ["x"])))
    with Sim(session_factory=f, identity_provider=provider) as sim:
        c = sim.connect()
        hs = c.greet()
        c.caps = c.want_caps & hs.caps
        hs_native = hs.plugin == NATIVE
        nonce = None
        s = f.sessions[0]
        if route in ("optimistic", "switch", "more"):
            if hs_native:
                nonce = nonce_of(hs.nonce)
            if route == "optimistic":
                c.send(P.handshake_response(c.caps, name, make(nonce), 45, None, NATIVE))
            elif route == "switch":
                c.send(P.handshake_response(c.caps, name, b"\1\2\3", 45, None, b"mysql_clear_password"))
            else:
                c.send(P.handshake_response(c.caps, name, b"", 45, None, NATIVE))
        else:
            # log in first, as a user without password
            c.login("anon", "", plugin=NATIVE)
            if hs_native:
                nonce = nonce_of(hs.nonce)
            if route == "cu_reuse":
                c.send(P.change_user(c.caps, name, make(nonce), b"", 45, NATIVE), 0)
            elif route == "cu_switch":
                c.send(P.change_user(c.caps, name, b"xyz\0", b"", 45, b"mysql_clear_password"), 0)
            else:
                c.send(P.change_user(c.caps, name, b"", b"", 45, NATIVE), 0)
        sim.settle()
        for _ in range(3):
            try:
                p = c.expect()
            except ServerClosed:
                return False, None, None
            if p[0] == 0xFE:
                r = P.R(p)
                r.take(1)
                pl = r.znull()
                if pl != NATIVE:
                    raise Violation(f"switched to {pl!r}")
                nonce = nonce_of(r.rest())
                c.send(make(nonce))
            elif p[0] == 1:
                nonce = nonce_of(p[1:])
                c.send(make(nonce))
            else:
                break
            sim.settle()
        if p[0] == 0:
            c.alive()
            inits = [x for x in s.calls if x[0] == "init"]
            if len(inits) != 1:
                raise Violation(f"calls {s.calls}")
            return True, s.username, nonce
        P.parse_err(p, c.caps)
        return False, s.username, nonce


def check(route, provider, name, expected, what, make, identity=None):
    ok, user, _ = attempt(provider, name.encode(), route, make)
    if expected is None:
        pass
    elif ok != expected:
        raise Violation(f"{route}: {what} for {name!r}: " + ("accepted" if ok else "refused"))
    if ok and user != (identity or name):
        raise Violation(f"{route}: the session runs as {user!r} after {name!r} authenticated")


def first_for(route):
    return "nologin" if route in ("more", "cu_more") else "native"


def provider_for(route, rng, pw, pw2, old):
    users = {u.name: u for u in [
        native("anon"), native("alice", pw), native("bob", pw2, old), native("oldonly", None, old),
        native("upper", raw=P.native_auth_string(pw.encode()).upper()),
    ]}
    return Prov(users, first_for(route), rng.random() < 0.5)


def responses(route: str, seed: int) -> None:
    rng = random.Random(seed)
    pw, pw2, old = rng.sample(PASSWORDS, 3) if rng.random() < 0.6 else (
        "".join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(160, 0xD7FF), rng.randrange(0x10000, 0x10FFFF)]))
                for _ in range(rng.randrange(1, 12))) + str(i) for i in range(3))
    prov = provider_for(route, rng, pw, pw2, old)
    b = lambda p: p.encode()
    good = lambda p: (lambda n: P.native_scramble(b(p), n))
    c = lambda name, exp, what, make: check(route, prov, name, exp, what, make)
    c("alice", True, "the right scramble", good(pw))
    c("bob", True, "the right scramble", good(pw2))
    c("bob", True, "the scramble of the old password", good(old))
    c("upper", True, "the right scramble", good(pw))
    c("anon", True, "an empty response", lambda n: b"")
    c("alice", False, "an empty response", lambda n: b"")
    c("bob", False, "an empty response", lambda n: b"")
    c("alice", False, "another user's scramble", good(pw2))
    c("bob", False, "another user's scramble", good(pw))
    c("anon", False, "a response for a user without password", good(pw))
    c("anon", False, "zeros", lambda n: bytes(20))
    c("nobody", False, "any response", good(pw))
    other = bytes(rng.choice(b"abcdefghijklmnop") for _ in range(20))
    c("alice", False, "another nonce's scramble", lambda n: P.native_scramble(b(pw), other))
    # the hash, the stored hash, related values an attacker may know
    h2 = bytes.fromhex(P.native_auth_string(b(pw)))
    c("alice", False, "the stored hash", lambda n: h2)
    c("alice", False, "a scramble of the stored hash",
      lambda n: bytes(x ^ y for x, y in zip(h2, hashlib.sha1(n + h2).digest())))
    c("alice", False, "the pad alone", lambda n: hashlib.sha1(n + h2).digest())
    c("alice", False, "the reversed nonce", lambda n: P.native_scramble(b(pw), n[::-1]))
    c("alice", None, "a junk extended scramble", lambda n: P.native_scramble(b(pw), n) + b"junk")
    i = rng.randrange(20)
    c("alice", False, "a junk extended wrong scramble",
      lambda n: bytes(x ^ (j == i) for j, x in enumerate(P.native_scramble(b(pw), n))) + b"junk")


def corrupt(route: str, lo: int, hi: int) -> None:
    """Every single-bit corruption and every truncation"""
    prov = provider_for(route, random.Random(lo), "secret", "s2", "old")
    for k in range(lo, hi):
        if k < 160:
            def make(n):
                x = bytearray(P.native_scramble(b"secret", n))
                x[k // 8] ^= 1 << (k % 8)
                return bytes(x)
            check(route, prov, "alice", False, f"a scramble with bit {k} flipped", make)

            def make2(n):
                x = bytearray(P.native_scramble(b"old", n))
                x[k // 8] ^= 1 << (k % 8)
                return bytes(x)
            if k % 4 == 0:
                check(route, prov, "bob", False, f"an old scramble with bit {k} flipped", make2)
        else:
            t = k - 160
            check(route, prov, "alice", False, f"a scramble cut to {t} bytes",
                  lambda n: P.native_scramble(b"secret", n)[:t])
            check(route, prov, "alice", False, f"a scramble without its first {20 - t} bytes",
                  lambda n: P.native_scramble(b"secret", n)[20 - t:])


def nul_ended(route: str, seed: int) -> None:
    """A scramble that begins or ends with NULs or blanks is taken as it is, and nothing shorter or padded is"""
    rng = random.Random(seed)
    user = native("alice", "x")
    prov = Prov({"anon": native("anon"), "alice": user}, first_for(route))
    end = rng.choice([b"\0", b" ", b"\n"])

    def setting(cut, test):
        def make(n):
            # the account's password is such that its scramble is like this
            for i in itertools.count():
                pw = b"%d-%d" % (seed, i)
                x = P.native_scramble(pw, n)
                if test(x):
                    user.auth_string = P.native_auth_string(pw)
                    return cut(x)
        return make
    last, first = (lambda x: x[-1:] == end), (lambda x: x[:1] == end)
    for test, where in ((last, "ends"), (first, "begins")):
        c = lambda exp, what, cut: check(route, prov, "alice", exp, f"{what} ({where} with {end!r})", setting(cut, test))
        c(True, "the right scramble", lambda x: x)
        if where == "ends":
            c(False, "the scramble without its last byte", lambda x: x[:-1])
            c(True, "the scramble, and more", lambda x: x + end)
        else:
            c(False, "the scramble without its first byte", lambda x: x[1:])
            c(False, "the scramble moved by a byte", lambda x: end + x)


BAD_HASHES = ["zz", "abc", "0" * 39, "x" * 40, "00", " ", "*" + "0" * 40, "\u00e9", "0" * 42, "0" * 40,
              P.native_auth_string(b"pw")[:-2], P.native_auth_string(b"pw") + "00", P.native_auth_string(b"pw")[:38]]


def malformed(route: str, i: int) -> None:
    users = {"anon": native("anon"), "bad": native("bad", raw=BAD_HASHES[i]),
             "badold": native("badold", raw=BAD_HASHES[i], old="right")}
    prov = Prov(users, first_for(route))
    for what, make in [("an empty response", lambda n: b""), ("zeros", lambda n: bytes(20)),
                       ("a scramble", lambda n: P.native_scramble(b"pw", n)), ("a byte", lambda n: b"\0"),
                       ("the nonce", lambda n: n), ("sha1 of the nonce", lambda n: hashlib.sha1(n).digest()),
                       ("sha1 of nonce and zeros", lambda n: hashlib.sha1(n + bytes(20)).digest())]:
        check(route, prov, "bad", False, what + " for a malformed hash", make)
    check(route, prov, "badold", True, "the secondary password besides a malformed hash",
          lambda n: P.native_scramble(b"right", n))


def replay(route: str, seed: int) -> None:
    """Captured responses are useless on another connection"""
    rng = random.Random(seed)
    prov = provider_for(route, rng, "secret", "s2", "old")
    seen = []
    for _ in range(4):
        state = random.getstate()
        random.seed(seed)
        try:
            ok, _, nonce = attempt(prov, b"alice", route, lambda n: P.native_scramble(b"secret", n))
        finally:
            random.setstate(state)
        if not ok:
            raise Violation("the right scramble was refused")
        if nonce in seen:
            raise Violation("a nonce was issued twice")
        seen.append(nonce)
    old = P.native_scramble(b"secret", seen[-1])
    check(route, prov, "alice", False, "a captured response", lambda n: old)


def nonces(n: int, cached: bool) -> None:
    """Fresh on every connection, also when they are open at the same time"""
    prov = Prov({"anon": native("anon"), "x": native("x", "p")}, "native", cached)
    f = Factory(lambda: Raw())
    seen = set()
    with Sim(session_factory=f, identity_provider=prov) as sim:
        for i in range(n):
            c = sim.connect()
            c.greet()
            x = [nonce_of(c.hs.nonce)]
            if i % 3 == 0:
                c.caps = P.BASE_CAPS & c.hs.caps
                c.send(P.handshake_response(c.caps, b"x", b"", 45, None, b"other"))
                sim.settle()
                p = c.expect()
                x.append(nonce_of(p.split(b"\0", 1)[1]))
            for y in x:
                if y in seen:
                    raise Violation("a nonce was issued twice")
                seen.add(y)
            if i % 2:
                c.disconnect()
                sim.settle()
    chars = set(b"".join(seen))
    for pos in range(20):
        if len({x[pos] for x in seen}) < 10:
            raise Violation(f"byte {pos} of the nonces is (nearly) constant")


def two_live(seed: int) -> None:
    """Two connections authenticate concurrently; each proof only fits its own nonce"""
    rng = random.Random(seed)
    route = rng.choice(["optimistic", "switch"])
    prov = Prov({"x": native("x", "p")}, "native", rng.random() < 0.7)
    f = Factory(lambda: Raw())
    with Sim(session_factory=f, identity_provider=prov) as sim:
        cs = [sim.connect() for _ in range(2)]
        ns = []
        for c in cs:
            c.greet()
            c.caps = P.BASE_CAPS & c.hs.caps
            if route == "switch":
                c.send(P.handshake_response(c.caps, b"x", b"", 45, None, b"other"))
        sim.settle()
        for c in cs:
            ns.append(nonce_of(c.expect().split(b"\0", 1)[1]) if route == "switch" else nonce_of(c.hs.nonce))
        swap = rng.random() < 0.5
        order = [0, 1]
        rng.shuffle(order)
        for i in order:
            auth = P.native_scramble(b"p", ns[1 - i if swap else i])
            cs[i].send(auth if route == "switch" else P.handshake_response(cs[i].caps, b"x", auth, 45, None, NATIVE))
        sim.settle()
        for c in cs:
            p = c.expect()
            if (p[0] == 0) == swap:
                raise Violation("a response for the other connection's nonce was accepted" if swap else
                                "the right response was refused")


def clear(seed: int) -> None:
    """The clear-password plugin: check() sees exactly the transmitted password"""
    rng = random.Random(seed)
    pw = rng.choice(["pw", "", " ", "\u00e9\u00e8", "\U0001f511", "a" * 200, "tab\t", "'", "%s", "pw "])
    users = {"anon": native("anon"), "u": User("u", auth_string=pw, auth_plugin="clear"),
             "locked": User("locked", auth_string=pw, auth_plugin="mysql_no_login")}
    f = Factory(lambda: Raw())
    prov = Prov(users, rng.choice(["native", "clear", "nologin"]), rng.random() < 0.5)
    # The empty identity is one, too
    ClearP.prefix = identity = rng.choice(["id-", "id-", ""])
    identity = identity and "id-u"
    route = rng.choice(["initial", "switch", "cu", "cu_switch"])
    kind = rng.choice(["good", "good", "prefix", "longer", "case", "other", "unterminated", "undecodable", "empty", "locked"])
    sent = {"good": pw, "prefix": pw[:-1] if pw else "x", "longer": pw + "x", "case": pw.swapcase() + "\u00df",
            "other": "other", "locked": pw}.get(kind)
    data = sent.encode() + b"\0" if sent is not None else {"unterminated": pw.encode() + b"y", "undecodable": b"\xff\xfe\0",
                                                            "empty": b""}[kind]
    name = b"locked" if kind == "locked" else b"u"
    with Sim(session_factory=f, identity_provider=prov) as sim:
        c = sim.connect()
        hs = c.greet()
        c.caps = c.want_caps & hs.caps
        ClearP.log = []
        if route.startswith("cu"):
            if prov.first == "clear":
                c.login("anon", "", plugin=NATIVE)
            else:
                c.login("anon", "")
            if route == "cu":
                c.send(P.change_user(c.caps, name, data[:255], b"", 45, b"mysql_clear_password"), 0)
            else:
                c.send(P.change_user(c.caps, name, b"", b"", 45, NATIVE), 0)
        elif route == "initial":
            c.send(P.handshake_response(c.caps, name, data[:255], 45, None, b"mysql_clear_password"))
        else:
            c.send(P.handshake_response(c.caps, name, b"", 45, None, NATIVE))
        sim.settle()
        p = c.expect()
        if p[0] == 0xFE:
            r = P.R(p)
            r.take(1)
            if r.znull() != b"mysql_clear_password":
                raise Violation("wrong plugin in the auth switch")
            c.send(data)
            sim.settle()
            p = c.expect()
        s = f.sessions[0]
        ok = p[0] == 0
        expected = kind in ("good",) or sent == pw and name == b"u"
        if ok != expected:
            raise Violation(f"clear password {kind} via {route}: " + ("accepted" if ok else "refused"))
        if ok and s.username != identity:
            raise Violation(f"the session runs as {s.username!r}, check() returned {identity!r}")
        if sent is not None and name == b"u" and ClearP.log != [("u", sent)]:
            raise Violation(f"check() was called with {ClearP.log}, the client sent {sent!r}")


SCENARIOS = {"responses": responses, "corrupt": corrupt, "malformed": malformed, "replay": replay,
             "nonces": nonces, "nul_ended": nul_ended, "two_live": two_live, "clear": clear}


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    for cached in (False, True):
        yield "nonces", {"n": 900 * n, "cached": cached}
    for route in ROUTES:
        for lo in range(0, 180, 10):
            yield "corrupt", {"route": route, "lo": lo, "hi": lo + 10}
        for i in range(len(BAD_HASHES)):
            yield "malformed", {"route": route, "i": i}
    base = seed * 7919
    for i in range(60 * n):
        for route in ROUTES:
            yield "responses", {"route": route, "seed": base + i}
        yield "replay", {"route": ROUTES[i % 6], "seed": base + i}
        yield "nul_ended", {"route": ROUTES[i % 6], "seed": base + i}
    for i in range(800 * n):
        yield "clear", {"seed": base + i}
        if i % 4 == 0:
            yield "two_live", {"seed": base + i}
