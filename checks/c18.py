"""C18: Connection ids are unique among live connections and address the right one."""
import asyncio
import random

from lib import proto as P
from lib.apps import SpecApp
from lib.sim import Factory, Sim, Tracking, Violation
from mysql_mimic.auth import IdentityProvider, NativePasswordAuthPlugin, User
from mysql_mimic.constants import KillKind
from mysql_mimic.control import LocalControl, TooManyConnections
from mysql_mimic.session import Session

FULL = 1 << 16


class Conn:
    """Stands in for a Connection: remembers the kills"""

    def __init__(self):
        self.kills = []

    def kill(self, kind=KillKind.CONNECTION):
        self.kills.append(kind)


class Hist:
    """A control and what has to be true of it"""

    def __init__(self, server_id):
        self.control = LocalControl(server_id=server_id)
        self.server_id = server_id
        self.live = {}
        self.order = []

    async def add(self):
        conn = Conn()
        full = len(self.live) == FULL
        try:
            cid = await self.control.add(conn)
        except TooManyConnections:
            if not full:
                raise Violation(f"refused with {len(self.live)} connections alive") from None
            return None
        if full:
            raise Violation(f"id {cid:#x} given out with all ids in use")
        if cid in self.live:
            raise Violation(f"id {cid:#x} given to two live connections")
        if not 0 <= cid < 1 << 32 or self.server_id is not None and cid >> 16 != self.server_id % FULL:
            raise Violation(f"id {cid:#x} with server id {self.server_id}")
        if self.live and cid >> 16 != next(iter(self.live)) >> 16:
            raise Violation(f"ids {cid:#x} and {next(iter(self.live)):#x} of one server")
        self.live[cid] = conn
        self.order.append(cid)
        return cid

    async def remove(self, cid):
        del self.live[cid]
        await self.control.remove(cid)

    async def kill(self, cid, kind=KillKind.CONNECTION):
        await self.control.kill(cid, kind)
        for other, conn in self.live.items():
            want = [kind] if other == cid else []
            if conn.kills != want:
                raise Violation(f"KILL {cid:#x}: connection {other:#x} got {conn.kills}")
            conn.kills.clear()


async def survivors(server_id, seed):
    """The sequence wraps around while old connections are alive"""
    rng = random.Random(seed)
    h = Hist(server_id)
    kept = []
    for i in range(FULL + 3000):
        cid = await h.add()
        if rng.random() < 0.001 or i < 3 or i % FULL in (FULL - 1, FULL - 2, 0):
            kept.append(cid)
        else:
            await h.remove(cid)
        if i % 9973 == 0:
            await h.kill(cid if cid in h.live else kept[0])
            await h.kill(cid ^ (1 << 16))
    for cid in kept:
        await h.kill(cid, KillKind.QUERY)


async def exhaust(server_id, seed):
    """All ids in use; service resumes as soon as a connection ends"""
    rng = random.Random(seed)
    h = Hist(server_id)
    for _ in range(FULL):
        if await h.add() is None:
            raise Violation("refused too early")
    if len(h.live) != FULL:
        raise Violation(f"{len(h.live)} ids")
    for _ in range(6):
        if await h.add() is not None:
            raise Violation("not refused")
        gone = rng.sample(sorted(h.live), rng.choice([1, 1, 2, 5]))
        for cid in gone:
            await h.remove(cid)
        got = [await h.add() for _ in gone]
        if set(got) != set(gone):
            raise Violation(f"{gone} ended, the next connections got {got}")
    # unknown ids
    for cid in (next(iter(h.live)) ^ (1 << 16), -1, 1 << 32, (1 << 32) + next(iter(h.live))):
        await h.control.kill(cid)
    if any(c.kills for c in h.live.values()):
        raise Violation("the kill of an unknown id reached a connection")


async def churn(server_id, seed):
    rng = random.Random(seed)
    h = Hist(server_id)
    for _ in range(rng.choice([0, 100, FULL - 20])):
        await h.remove(await h.add())
    for _ in range(300):
        if h.live and rng.random() < 0.45:
            await h.remove(rng.choice(sorted(h.live)))
        else:
            await h.add()
        if rng.random() < 0.1 and h.live:
            await h.kill(rng.choice(sorted(h.live)), rng.choice(list(KillKind)))
        if rng.random() < 0.02:
            await h.control.remove(rng.randrange(1 << 32) | 1 << 33)


def history(kind, server_id, seed):
    asyncio.run({"survivors": survivors, "exhaust": exhaust, "churn": churn}[kind](server_id, seed))


class Provider(IdentityProvider):
    def get_plugins(self):
        return [NativePasswordAuthPlugin()]

    async def get_user(self, username):
        return User(username, auth_plugin="mysql_native_password") if username != "nobody" else None


class App(Session):
    def __init__(self):
        super().__init__()
        self.n = 0

    async def query(self, expression, sql, attrs):
        self.n += 1
        if "wait" in sql:
            await asyncio.get_running_loop().create_future()
        return [(1,)], ["a"]


def connection_id(c, rng):
    sql = rng.choice(["SELECT CONNECTION_ID()", "select connection_id() as x"])
    r = c.query(sql)
    if r.kind != "rows" or len(r.rows) != 1:
        raise Violation(f"{sql}: {r.kind} {r.err}")
    return int(r.rows[0][0])


def server(seed, server_id, start):
    """Handshake, CONNECTION_ID() and KILL denote the same connection; `start` ids were used before"""
    rng = random.Random(seed)
    control = Tracking(server_id=server_id)
    f = Factory(App)
    with Sim(session_factory=f, control=control, identity_provider=Provider(), hang=30) as sim:
        def run(coro):
            return sim.loop.run_until_complete(coro)

        for _ in range(start):
            run(control.remove(run(LocalControl.add(control, Conn()))))
        control.log.clear()
        live = {}

        def check():
            ids = [c.hs.thread_id for c in live]
            if len(set(ids)) != len(ids):
                raise Violation(f"two live connections share an id: {ids}")
            if set(ids) != set(control.live):
                raise Violation(f"announced {sorted(ids)}, registered {sorted(control.live)}")
            for i in ids:
                if i >> 16 != server_id % FULL:
                    raise Violation(f"id {i:#x} with server id {server_id}")

        for _ in range(40):
            x = rng.random()
            if x < 0.35 or len(live) < 2:
                if rng.random() < 0.15:
                    bad = sim.login("nobody", raw_result=True)
                    if not bad.closed:
                        raise Violation("not closed")
                    continue
                c = sim.login(rng.choice(["u", "v"]), caps=P.BASE_CAPS | rng.choice([0, P.DEPRECATE_EOF]))
                live[c] = f.sessions[-1]
            elif x < 0.6:
                c = rng.choice(list(live))
                got = connection_id(c, rng)
                if got != c.hs.thread_id:
                    raise Violation(f"CONNECTION_ID() {got}, the handshake said {c.hs.thread_id}")
            elif x < 0.65:
                c = rng.choice(list(live))
                c.change_user("v")
                if connection_id(c, rng) != c.hs.thread_id:
                    raise Violation("COM_CHANGE_USER changed the id")
            elif x < 0.8:
                c = rng.choice(list(live))
                c.disconnect(rng.random() < 0.5)
                sim.settle()
                del live[c]
            else:
                killer, target = rng.sample(list(live), 2)
                cid = connection_id(target, rng) if rng.random() < 0.5 else target.hs.thread_id
                busy = rng.random() < 0.5
                if busy:
                    target.send(P.com_query(target.caps, b"select wait from t"), 0)
                    sim.settle()
                q = rng.random() < 0.5
                r = killer.query(f"KILL {'QUERY ' if q else rng.choice(['', 'CONNECTION '])}{cid}")
                sim.settle()
                if r.kind != "ok":
                    raise Violation(f"KILL: {r.err}")
                for c in live:
                    if c.closed != (c is target and not q):
                        raise Violation(f"KILL {'QUERY ' if q else ''}{cid}: connection {c.hs.thread_id} closed={c.closed}")
                if not q:
                    del live[target]
                elif busy:
                    if target.read_response("query").kind != "err":
                        raise Violation("the statement wasn't killed")
                for c in live:
                    c.alive()
            check()


def full(seed, server_id, real):
    """All ids are in use: ERR 1040, then service resumes"""
    rng = random.Random(seed)
    control = Tracking(server_id=server_id)
    f = Factory(App)
    with Sim(session_factory=f, control=control, identity_provider=Provider(), hang=30) as sim:
        def run(coro):
            return sim.loop.run_until_complete(coro)

        async def fill(n):
            return [await LocalControl.add(control, Conn()) for _ in range(n)]
        first = [sim.login("u") for _ in range(real)]
        others = run(fill(FULL - 2 * real))
        first += [sim.login("u") for _ in range(real)]
        for _ in range(3):
            for _ in range(2):
                c = sim.connect()
                kind, code = refused(c)
                if (kind, code) != ("err", 1040) or not c.closed:
                    raise Violation(f"all ids in use: {kind} {code} closed={c.closed}")
            for c in first:
                c.alive()
            if rng.random() < 0.5:
                gone = first.pop(rng.randrange(len(first)))
                gone.disconnect(rng.random() < 0.5)
                sim.settle()
                want = gone.hs.thread_id
            else:
                want = others.pop(rng.randrange(len(others)))
                run(LocalControl.remove(control, want))
            c = sim.login("u")
            if c.hs.thread_id != want or connection_id(c, rng) != want:
                raise Violation(f"{want} ended, the next connection is {c.hs.thread_id}")
            first.append(c)
        ids = [c.hs.thread_id for c in first] + others
        if len(set(ids)) != FULL:
            raise Violation("ids not distinct")


def refused(c):
    fr = c.frame()
    if fr is None:
        return "nothing", None
    p = fr[1]
    if p[:1] == b"\xff":
        return "err", int.from_bytes(p[1:3], "little")
    return "other", p


def randoms(seed):
    """No server id configured"""
    a = LocalControl()
    b = Hist(None)
    b.control = a
    asyncio.run(few(b))


async def few(h):
    for _ in range(100):
        await h.add()


SCENARIOS = {"history": history, "server": server, "full": full, "randoms": randoms}
IDS = [0, 1, 5, 32767, 32768, 65535, 65536, 65537, 131071, 1 << 20, (1 << 32) + 7]


def cases(tier, seed):
    quick = tier == "quick"
    for i, sid in enumerate(IDS):
        for k in ("survivors", "exhaust"):
            if not quick or i in (0, 1, 5, 6, 7):
                yield "history", {"kind": k, "server_id": sid, "seed": seed + i}
    for i in range(40 if quick else 2000):
        sid = IDS[i % len(IDS)]
        yield "history", {"kind": "churn", "server_id": sid, "seed": seed * 1000 + i}
        yield "server", {"seed": seed * 1000 + i, "server_id": sid, "start": [0, FULL - 3, 100][i % 3] if i % 4 == 0 else i % 7}
        yield "randoms", {"seed": i}
    for i in range(4 if quick else 40):
        yield "full", {"seed": seed * 100 + i, "server_id": IDS[i % len(IDS)], "real": 1 + i % 4}
