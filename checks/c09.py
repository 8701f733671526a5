"""C09: KILL QUERY spares the connection; KILL CONNECTION ends exactly the target."""
import asyncio
import random

from lib import proto as P
from lib.apps import SpecApp
from lib.proto import Param, T
from lib.sim import Factory, Sim, Tracking, Violation
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, IdentityProvider, NativePasswordAuthPlugin, User
from mysql_mimic.constants import KillKind

KINDS = {"Q": KillKind.QUERY, "C": KillKind.CONNECTION}


class KApp(SpecApp):
    async def handle_query(self, sql, attrs):
        if sql == "swallow":
            try:
                await self.forever()
            except asyncio.CancelledError:
                return [("x",)], ["a"]
        if sql == "convert":
            try:
                await self.forever()
            except asyncio.CancelledError:
                raise ValueError("converted") from None
        if sql == "cleanup":
            try:
                await self.forever()
            finally:
                await asyncio.sleep(0)
                await asyncio.sleep(0)
        if sql == "nested":
            await asyncio.wait_for(self.forever(), 1000)
        if sql == "shield":
            await asyncio.shield(asyncio.ensure_future(self.forever()))
        if sql == "stream":
            async def gen():
                try:
                    for i in range(6):
                        await asyncio.sleep(0)
                        yield (f"r{i}",)
                finally:
                    await asyncio.sleep(0)
            return gen(), ["a"]
        if sql == "swallow stream":
            async def sgen():
                for i in range(6):
                    try:
                        await asyncio.sleep(0)
                    except asyncio.CancelledError:
                        pass
                    yield (f"r{i}",)
            return sgen(), ["a"]
        if sql == "endless":
            return (("y" * 100,) for _ in iter(int, 1)), ["a"]
        return await super().handle_query(sql, attrs)

    def forever(self):
        f = asyncio.get_running_loop().create_future()
        self.pending.append(f)
        return f

    async def schema(self):
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        return await super().schema()

    async def use(self, database):
        await asyncio.sleep(0)
        await super().use(database)

    async def reset(self):
        await asyncio.sleep(0)
        await super().reset()


class Slow(AbstractClearPasswordAuthPlugin):
    name = "slow"

    async def check(self, username, password):
        await asyncio.sleep(0)
        return username


class Provider(IdentityProvider):
    def get_plugins(self):
        return [NativePasswordAuthPlugin(), Slow()]

    async def get_user(self, username):
        await asyncio.sleep(0)
        if username.startswith("unknown"):
            return None
        return User(username, auth_plugin="slow" if username == "slow" else "mysql_native_password")


class Control(Tracking):
    def __init__(self, server_id=1):
        super().__init__(server_id)
        self.removed = []

    async def remove(self, connection_id):
        self.removed.append(connection_id)
        await super().remove(connection_id)


def q(sql):
    return (lambda c: P.com_query(c.caps, sql.encode())), "query"


def cmd(code, rest=b"", kind="ok"):
    return (lambda c: bytes([code]) + rest), kind


def ex(cursor=False, n=2, stmt=0):
    return (lambda c: P.com_stmt_execute(c.caps, stmt, [Param(T["LONG"], i) for i in range(n)], None, cursor)), \
        "execute_cursor" if cursor else "execute"


ZERO = bytes(4)
# name: (statements to prepare, open a cursor on the first, [(payload, kind)], window)
PROGRAMS = {
    "idle": ([], 0, [], None),
    "ping": ([], 0, [cmd(P.COM_PING)], None),
    "debug": ([], 0, [cmd(P.COM_DEBUG)], None),
    "rows": ([], 0, [q("{'c':2,'r':3}")], None),
    "wait": ([], 0, [q("{'c':2,'r':3,'wait':1}")], None),
    "yields": ([], 0, [q("{'c':2,'r':3,'y':4}")], None),
    "stream": ([], 0, [q("stream")], None),
    "swallow_stream": ([], 0, [q("swallow stream")], None),
    "swallow": ([], 0, [q("swallow")], None),
    "convert": ([], 0, [q("convert")], None),
    "cleanup": ([], 0, [q("cleanup")], None),
    "nested": ([], 0, [q("nested")], None),
    "shield": ([], 0, [q("shield")], None),
    "none": ([], 0, [q("{'none':1,'y':1}")], None),
    "error": ([], 0, [q("{'e':'my','y':2}")], None),
    "rowerror": ([], 0, [q("{'c':1,'r':5,'e':'value','at':3,'s':'slowagen'}")], None),
    "static": ([], 0, [q("SELECT 1")], None),
    "set": ([], 0, [q("SET sql_mode = 'x'")], None),
    "show": ([], 0, [q("SHOW TABLES FROM db")], None),
    "big": ([], 0, [q("{'c':1,'r':400,'w':1000}")], None),
    "stalled": ([], 0, [q("{'c':1,'r':400,'w':1000}")], 0),
    "stalled_binary": (["{'c':1,'r':400,'w':1000}"], 0, [ex(n=0)], 0),
    "stalled_fetch": (["{'c':1,'r':400,'w':1000}"], 1, [cmd(P.COM_STMT_FETCH, ZERO + (300).to_bytes(4, "little"), "fetch")], 0),
    "partly": ([], 0, [q("{'c':1,'r':400,'w':1000}")], 5000),
    "endless": ([], 0, [q("endless")], 100),
    "endless_free": ([], 0, [q("endless")], None),
    "prepare": ([], 0, [cmd(P.COM_STMT_PREPARE, b"SELECT ?, ?, ?", "prepare")], None),
    "execute": (["{'c':1,'r':4,'s':'slowagen'}"], 0, [ex(n=0)], None),
    "execute_wait": (["{'c':1,'r':4,'wait':1}"], 0, [ex(n=0)], None),
    "execute_cursor": (["{'c':1,'r':4,'y':2}"], 0, [ex(True, 0)], None),
    "fetch": (["{'c':1,'r':9,'s':'slowagen'}"], 1, [cmd(P.COM_STMT_FETCH, ZERO + (5).to_bytes(4, "little"), "fetch")], None),
    "refetch": (["{'c':1,'r':3,'s':'slowagen'}"], 1, [cmd(P.COM_STMT_FETCH, ZERO + (2).to_bytes(4, "little"), "fetch")] * 2, None),
    "reset": (["stream"], 1, [cmd(P.COM_STMT_RESET, ZERO)], None),
    "close": (["stream"], 1, [cmd(P.COM_STMT_CLOSE, ZERO, "none")], None),
    "long_data": (["SELECT ?, ?"], 0, [cmd(P.COM_STMT_SEND_LONG_DATA, ZERO + b"\0\0abc", "none")], None),
    "field_list": ([], 0, [cmd(P.COM_FIELD_LIST, b"t\0", "field_list")], None),
    "init_db": ([], 0, [cmd(P.COM_INIT_DB, b"db")], None),
    "reset_connection": ([], 0, [cmd(P.COM_RESET_CONNECTION)], None),
    "change_user": ([], 0, [(lambda c: P.change_user(c.caps, b"u2", b"", b"db", 45, b"mysql_native_password"), "auth")], None),
    "change_slow": ([], 0, [(lambda c: P.change_user(c.caps, b"slow", b"pw\0", b"", 45, b"mysql_clear_password"), "auth")], None),
    "refused_stalled": ([], 0, [(lambda c: P.change_user(c.caps, b"unknown" + b"x" * 70000, b"", b"db", 45, b"mysql_native_password"), "auth")], 0),
    "unknown": ([], 0, [cmd(0x55)], None),
    "two": ([], 0, [q("{'c':1,'r':2,'y':2}"), cmd(P.COM_PING)], None),
    "three": ([], 0, [q("stream"), cmd(P.COM_INIT_DB, b"x"), q("{'c':1,'r':3,'wait':1}")], None),
    "nothing_then": (["SELECT ?"], 0, [cmd(P.COM_STMT_SEND_LONG_DATA, ZERO + b"\0\0abc", "none"), q("stream")], None),
    "quit": ([], 0, [cmd(P.COM_QUIT, b"", "none")], None),
    "kill_unknown": ([], 0, [q("KILL QUERY 999")], None),
}


class World:
    def __init__(self, name, caps=0, server_id=1):
        self.control = Control(server_id)
        self.f = Factory(KApp)
        self.sim = Sim(session_factory=self.f, control=self.control, identity_provider=Provider(), hang=20)
        self.bystander = self.sim.login("by")
        self.killer = self.sim.login("killer")
        self.c = self.sim.login("target", caps=P.BASE_CAPS | caps)
        self.session = self.f.sessions[-1]
        stmts, cursor, self.cmds, self.window = PROGRAMS[name]
        self.columns = []
        for i, s in enumerate(stmts):
            r = self.c.prepare(s)
            if r.stmt_id != i:
                raise Violation(f"statement id {r.stmt_id}")
        if cursor:
            self.columns = self.c.execute(0, [], cursor=True).columns
        self.name = name
        self.mark = len(self.c.tr.out)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.sim.shutdown()

    def begin(self):
        """Send the commands"""
        if self.window is not None:
            self.c.tr.client_accept(self.window)
        for payload, _ in self.cmds:
            self.c.send(payload(self.c), 0)

    def kill(self, kind, src):
        cid = self.c.hs.thread_id
        if src == "api":
            self.sim.loop.create_task(self.control.kill(cid, KINDS[kind]))
        elif src == "direct":
            conn = self.control.live.get(cid)
            if conn:
                conn.kill(KINDS[kind])
        else:
            self.killer.send(P.com_query(self.killer.caps, f"KILL {'QUERY ' if kind == 'Q' else ''}{cid}".encode()), 0)

    def release(self):
        for _ in range(3):
            for f in self.session.pending:
                if not f.done():
                    f.set_result(None)
            self.sim.settle()


def responses(w, c, closed_ok):
    """Decode the responses to all commands: list of (kind, Response or None if cut off)"""
    out = []
    for _, kind in w.cmds:
        c.seq = 1
        if kind == "none":
            out.append(None)
            continue
        if kind == "auth":
            p = c.packet()
            if p is None:
                if closed_ok and c.closed:
                    return out
                raise Violation("COM_CHANGE_USER is not answered")
            if p[0] == 0:
                P.parse_ok(p, c.caps)
                out.append(P.Response("ok"))
            elif P.is_err(p):
                out.append(P.Response("err", err=P.parse_err(p, c.caps)))
            else:
                raise P.ProtocolError(f"{p[:20]!r}")
            continue
        d = P.Decoder(kind, c.caps, w.columns)
        while True:
            p = c.packet()
            if p is None:
                if closed_ok and c.closed:
                    return out
                raise Violation(f"incomplete response after {len(d.r.raw)} packets, {d.r.kind} (closed: {c.closed})")
            if d.feed(p):
                break
        out.append(d.r)
    return out


def errs(rs):
    return sum(1 for r in rs if r is not None and r.kind == "err")


_base = {}


def baseline(name):
    """(iterations, number of ERRs) without a kill"""
    if name not in _base:
        with World(name) as w:
            w.begin()
            n = 0
            while w.sim.ready and n < 60 and not name.startswith("endless"):
                w.sim.step()
                n += 1
            if name.startswith("endless"):
                _base[name] = (10, 0)
            else:
                w.c.tr.client_accept(None)
                w.release()
                _base[name] = (n, errs(responses(w, w.c, name in ("quit", "refused_stalled"))))
    return _base[name]


def others(w, src, n_kills):
    """The killer got exactly one response to each KILL, and nobody else was affected"""
    if src == "conn":
        for _ in range(n_kills):
            w.killer.seq = 1
            r = w.killer.read_response("query")
            if r.kind != "ok":
                raise Violation(f"KILL answered with {r.kind} {r.err}")
    w.killer.quiet()
    w.killer.alive()
    w.bystander.quiet()
    w.bystander.alive()


def spared(w, rs, base_errs, n_kills):
    """The target of KILL QUERYs is alive and in step"""
    c = w.c
    if errs(rs) > base_errs + n_kills:
        raise Violation(f"{errs(rs)} statements failed, there were {n_kills} kills")
    c.quiet()
    if c.closed:
        if w.name in ("quit", "refused_stalled"):
            return
        raise Violation("KILL QUERY closed the connection")
    c.alive()
    w.sim.settle()
    r = c.query("{'c':2,'r':3,'y':3,'s':'slowagen'}")
    if r.kind != "rows" or len(r.rows) != 3:
        raise Violation(f"the statement after the kill: {r.kind} {r.err} {r.rows}")
    r = c.query("SELECT 1")
    if r.kind != "rows":
        raise Violation(f"the statement after the kill: {r.kind} {r.err}")
    st = c.prepare("{'c':1,'r':4,'s':'agen'}")
    if st.kind != "prepare" or c.execute(st.stmt_id, [], cursor=True).kind != "rows" or len(c.fetch(st.stmt_id, 9).rows) != 4:
        raise Violation("prepared statements don't work after the kill")
    if w.session.calls.count(("close",)):
        raise Violation("the session was closed")
    if w.control.removed:
        raise Violation("a connection was removed from the registry")


def ended(w, closes=1):
    c = w.c
    if not c.tr.closed:
        raise Violation("KILL CONNECTION did not close the connection")
    n = w.session.calls.count(("close",))
    if n != closes:
        raise Violation(f"the session was closed {n} times")
    if w.control.removed != [c.hs.thread_id]:
        raise Violation(f"removed from the registry: {w.control.removed}")


def kill(name: str, k: int, kinds: str, gap: int, src: str, caps: int = 0) -> None:
    """Kills `kinds`, the first after k iterations, the next ones `gap` iterations later"""
    _, base_errs = baseline(name)
    if name == "refetch":
        base_errs += 1  # there is no cursor any more if the first fetch was killed
    with World(name, caps) as w:
        w.begin()
        for _ in range(k):
            w.sim.step()
        for i, kind in enumerate(kinds):
            if i:
                for _ in range(gap):
                    w.sim.step()
            if src == "conn" and i:
                w.killer.seq = 0
            w.kill(kind, src)
        # everything in flight ends, without the application's or the client's help
        if "C" in kinds:
            w.sim.settle()
            ended(w)
            w.c.tr.client_accept(None)
            w.sim.settle()
            rs = responses(w, w.c, True)
            n = errs(rs)
            rest = []
            w.c.buffer()
            while True:
                f = w.c.frame()
                if f is None:
                    break
                rest.append(f)
            # what is left is the ERR for the connection, if anything
            if len(rest) > 1 or rest and rest[0][1][:1] != b"\xff":
                raise Violation(f"unsolicited packets: {rest[:4]}")
            if w.c.buffer():
                raise Violation(f"half a packet: {w.c.buffer()[:30]!r}")
            if n > base_errs + len(kinds):
                raise Violation(f"{n} ERRs")
            if len(rs) == len(w.cmds) and rest and w.cmds and w.cmds[-1][1] != "none":
                raise Violation(f"unsolicited packets after the response: {rest}")
            if not w.cmds and (rs or rest):
                raise Violation("an idle connection got an unsolicited packet")
            others(w, src, len(kinds))
            ended(w)
            if w.sim.tasks():
                extra = [t for t in w.sim.tasks() if "shield" not in name and "forever" not in repr(t)]
                alive = 2
                if len(extra) > 2 * alive:
                    raise Violation(f"tasks left behind: {extra}")
            return
        if name.startswith("endless"):
            # ends only because of the kill, unless it came before the statement began
            w.c.tr.client_accept(None)
            for _ in range(100):
                if not w.sim.ready:
                    break
                w.sim.step()
            if w.sim.ready:
                if k >= 9:
                    raise Violation("KILL QUERY did not abort the statement")
                return
        else:
            if name in ("wait", "execute_wait", "cleanup", "nested") and k >= baseline(name)[0] and len(kinds) == 1:
                w.sim.settle()
                if not w.c.buffer():
                    raise Violation("the statement isn't aborted while the application is busy")
            w.sim.settle()
            w.c.tr.client_accept(None)
            w.release()
        others(w, src, len(kinds))
        spared(w, responses(w, w.c, name in ("quit", "refused_stalled")), base_errs, len(kinds))


def aborts(name: str, src: str) -> None:
    """A statement that would never end by itself is aborted by KILL QUERY, with exactly one ERR"""
    with World(name) as w:
        w.begin()
        if w.cmds[0][1] == "query" and name == "endless_free":
            for _ in range(10):
                w.sim.step()
        else:
            w.sim.settle()
        if name != "endless_free" and w.c.sim.ready:
            raise Violation("not settled")
        w.kill("Q", src)
        w.sim.settle()
        w.c.tr.client_accept(None)
        w.sim.settle()
        w.sim.settle()
        others(w, src, 1)
        rs = responses(w, w.c, False)
        if rs[0].kind != "err":
            raise Violation(f"the running statement was not aborted: {rs[0].kind}")
        spared(w, rs, 0, 1)


def own(kind: str, phase: int) -> None:
    """A connection that kills itself"""
    with World("idle") as w:
        c = w.c
        c.send(P.com_query(c.caps, f"KILL {kind} {c.hs.thread_id}".encode()), 0)
        w.sim.settle()
        if kind == "QUERY":
            c.seq = 1
            c.read_response("query")
            c.quiet()
            w.cmds = []
            spared(w, [], 0, 0)
        else:
            c.seq = 1
            p = c.expect()
            if p[:1] not in (b"\0", b"\xff"):
                raise Violation(f"{p[:20]!r}")
            c.quiet()
            ended(w)
        others(w, "api", 0)


def unknown(cid: int, server_id: int = 1) -> None:
    """Unknown ids change nothing"""
    with World("wait", server_id=server_id) as w:
        cid = {0: 0, 1: 1, 2: w.c.hs.thread_id + 1, 3: 2**32 - 1, 4: 2**40, 5: w.c.hs.thread_id + 2**32, 6: w.c.hs.thread_id - 2**16,
               7: w.c.hs.thread_id % 2**16, 8: w.c.hs.thread_id + 2**16, 9: w.c.hs.thread_id + 7 * 2**16, 10: w.c.hs.thread_id ^ 2**31,
               11: w.c.hs.thread_id + 2**64, 12: w.c.hs.thread_id + 10**6, 13: w.c.hs.thread_id * 10, 14: w.c.hs.thread_id + 256}[cid]
        ids = {w.c.hs.thread_id, w.killer.hs.thread_id, w.bystander.hs.thread_id}
        if cid in ids:
            return
        w.begin()
        w.sim.settle()
        for sql in (f"KILL {cid}", f"KILL QUERY {cid}", f"KILL CONNECTION {cid}"):
            r = w.killer.query(sql)
            if r.kind not in ("ok", "err"):
                raise Violation(f"{sql}: {r.kind}")
        if w.c.buffer():
            raise Violation("a kill for another id reached this connection")
        w.release()
        others(w, "api", 0)
        rs = responses(w, w.c, False)
        if rs[0].kind != "rows":
            raise Violation(f"{rs[0].err}")
        spared(w, rs, 0, 0)


def handshake(k: int, kind: str, stage: int) -> None:
    """Kills during the connection phase"""
    control, f = Control(), Factory(KApp)
    with Sim(session_factory=f, control=control, identity_provider=Provider(), hang=20) as sim:
        by = sim.login("by")
        c = sim.connect()
        c.greet()
        cid = c.hs.thread_id
        c.caps = P.BASE_CAPS & c.hs.caps
        if stage:
            c.send(P.handshake_response(c.caps, b"slow", b"pw\0", 45, None, b"mysql_clear_password" if stage == 1 else b"x"))
        for _ in range(k):
            sim.step()
        conn = control.live.get(cid)
        if conn:
            conn.kill(KINDS[kind])
        sim.settle()
        s = f.sessions[-1]
        if kind == "Q":
            if not stage:
                c.send(P.handshake_response(c.caps, b"x", b"", 45, None, b"mysql_native_password"))
                sim.settle()
            p = c.auth_loop(b"")
            if p[:1] == b"\xff":
                raise Violation("KILL QUERY failed a login")
            c.quiet()
            c.alive()
        else:
            if not c.tr.closed:
                raise Violation("KILL CONNECTION did not end a connection in its handshake")
            inits, closes = s.calls.count(("init",)), s.calls.count(("close",))
            if inits != closes:
                raise Violation(f"session initialised {inits} times, closed {closes} times")
            if control.removed != [cid]:
                raise Violation(f"removed {control.removed}")
        by.alive()


def rand(seed: int) -> None:
    """Several kills at random moments while a target runs several commands"""
    rng = random.Random(seed)
    names = [n for n in PROGRAMS if not n.startswith("endless") and n != "quit" and not PROGRAMS[n][0] and PROGRAMS[n][3] is None]
    cmds = []
    for _ in range(rng.randrange(1, 5)):
        cmds += PROGRAMS[rng.choice(names)][2]
    with World("idle", rng.choice([0, P.DEPRECATE_EOF])) as w:
        w.cmds = cmds
        w.name = "rand"
        base = len(cmds)
        sent = 0
        n_kills = rng.randrange(1, 5)
        kills = 0
        w_done = 0
        total = 0
        # lockstep client: sends the next command when the response is complete
        for i in range(400):
            x = rng.random()
            if x < 0.6 and w.sim.ready:
                w.sim.step()
            elif x < 0.7 and kills < n_kills:
                w.kill("Q", rng.choice(["api", "direct"]))
                kills += 1
            elif x < 0.8 and sent < len(cmds):
                payload, _ = cmds[sent]
                w.c.send(payload(w.c), 0)
                sent += 1
            elif x < 0.85:
                for f in w.session.pending:
                    if not f.done():
                        f.set_result(None)
        while sent < len(cmds):
            w.c.send(cmds[sent][0](w.c), 0)
            sent += 1
        w.release()
        w.release()
        rs = responses(w, w.c, False)
        spared(w, rs, base, kills)
        others(w, "api", 0)


SCENARIOS = {"kill": kill, "aborts": aborts, "own": own, "unknown": unknown, "handshake": handshake, "rand": rand}


def cases(tier, seed):
    quick = tier == "quick"
    for name in ("wait", "execute_wait", "cleanup", "nested", "stalled", "stalled_binary", "stalled_fetch", "partly", "endless", "endless_free"):
        for src in ("api", "direct", "conn"):
            if name in ("partly", "stalled", "stalled_binary", "stalled_fetch") and src == "conn":
                continue
            yield "aborts", {"name": name, "src": src}
    for kind in ("QUERY", "CONNECTION", ""):
        yield "own", {"kind": kind, "phase": 0}
    for server_id in (1, 0, 65535):
        for i in range(15):
            yield "unknown", {"cid": i, "server_id": server_id}
    for stage in (0, 1, 2):
        for k in range(0, 14):
            for kind in "QC":
                yield "handshake", {"k": k, "kind": kind, "stage": stage}
    rng = random.Random(seed)
    for name in PROGRAMS:
        n = 8 if name.startswith("endless") else baseline(name)[0]
        for k in (0, 2, n + 1) if name == "endless_free" and quick else range(0, n + 2):
            for kind in "QC":
                if name in ("quit",) and kind == "C":
                    continue
                yield "kill", {"name": name, "k": k, "kinds": kind, "gap": 0, "src": "direct"}
                yield "kill", {"name": name, "k": k, "kinds": kind, "gap": 0, "src": rng.choice(["api", "conn"]), "caps": P.DEPRECATE_EOF}
            if name == "quit" or name.startswith("endless"):
                continue
            for kinds in ("QQ", "QC", "CQ", "CC", "QQQ"):
                for gap in ((rng.choice([0, 1, 2, 3]),) if quick else (0, 1, 2, 3, 4)):
                    yield "kill", {"name": name, "k": k, "kinds": kinds, "gap": gap, "src": rng.choice(["direct", "api"])}
    for i in range(300 if quick else 6000):
        yield "rand", {"seed": seed * 7919 + i}
