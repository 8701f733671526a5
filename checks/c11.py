"""C11: Server-side cursors deliver every row exactly once, in order."""
import random

from lib import proto as P
from lib.apps import SOURCES, SpecApp
from lib.proto import Param, T
from lib.sim import Factory, Sim, Violation

LAST, EXISTS = 128, 64


def rows_of(spec):
    w = spec.get("w", 0)
    return [tuple(f"{i},{j}" + "." * w for j in range(spec.get("c", 1))) for i in range(spec.get("r", 1))]


class Model:
    def __init__(self):
        self.stmts = {}  # id: [spec, rows left or None]

    def fetch(self, sid, n):
        """(error?, rows)"""
        if sid not in self.stmts or self.stmts[sid][1] is None:
            return None
        left = self.stmts[sid][1]
        out, self.stmts[sid][1] = left[:n], left[n:]
        return out


def norm(rows):
    return [tuple(x.decode() if isinstance(x, (bytes, bytearray)) else x for x in r) for r in rows]


class World:
    def __init__(self, caps=0, app=SpecApp):
        self.sim = Sim(session_factory=Factory(app), hang=30)
        self.c = self.sim.login(caps=P.BASE_CAPS | caps)
        self.m = Model()

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.sim.shutdown()

    def prepare(self, spec):
        r = self.c.prepare(repr(spec))
        if r.kind != "prepare":
            raise Violation(f"prepare: {r.err}")
        if r.stmt_id in self.m.stmts:
            raise Violation(f"statement id {r.stmt_id} is in use")
        self.m.stmts[r.stmt_id] = [spec, None]
        return r.stmt_id

    def execute(self, sid, cursor=True):
        r = self.c.execute(sid, [], cursor=cursor)
        if sid not in self.m.stmts:
            if r.kind != "err":
                raise Violation(f"execution of an unknown statement: {r.kind}")
            return
        spec = self.m.stmts[sid][0]
        self.m.stmts[sid][1] = None
        if spec.get("e") and spec.get("at", -1) < 0:
            if r.kind != "err":
                raise Violation(f"{r.kind}")
            return
        if r.kind != "rows":
            raise Violation(f"execute: {r.kind} {r.err}")
        if len(r.columns) != spec.get("c", 1):
            raise Violation(f"{len(r.columns)} columns")
        if cursor:
            if r.rows:
                raise Violation("rows in the response that opens a cursor")
            if not r.status & EXISTS or r.status & LAST:
                raise Violation(f"status {r.status:#x} for an opened cursor")
            self.m.stmts[sid][1] = rows_of(spec)
        elif norm(r.rows) != rows_of(spec):
            raise Violation(f"{norm(r.rows)}")

    def fetch(self, sid, n):
        want = self.m.fetch(sid, n)
        r = self.c.fetch(sid, n)
        if want is None:
            if r.kind != "err":
                raise Violation(f"fetch without a cursor: {r.kind} {r.rows}")
            return
        if r.kind != "rows":
            raise Violation(f"fetch: {r.err}")
        got = norm(r.rows)
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation(f"fetch({n}) of statement {sid}: {len(got)} rows instead of {len(want)}, at {i}: {got[i:i + 2]} {want[i:i + 2]}")
        left = self.m.stmts[sid][1]
        if left and r.status & LAST:
            raise Violation(f"last-row-sent with {len(left)} rows left")
        if len(want) < n and not r.status & LAST:
            raise Violation("a fetch that could not be filled isn't flagged")

    def reset(self, sid):
        r = self.c.stmt_reset(sid)
        if sid not in self.m.stmts:
            if r.kind != "err":
                raise Violation(f"reset of an unknown statement: {r.kind}")
            return
        if r.kind != "ok":
            raise Violation(f"{r.err}")
        self.m.stmts[sid][1] = None

    def close(self, sid):
        self.c.stmt_close(sid)
        self.m.stmts.pop(sid, None)


def sequence(n, sizes, source, caps, w=0, c=1):
    """One cursor on n rows, fetches of the given sizes"""
    with World(caps) as world:
        sid = world.prepare({"c": c, "r": n, "s": source, "w": w})
        world.execute(sid)
        for s in sizes:
            world.fetch(sid, s)
        world.execute(sid)
        for s in sizes[::-1]:
            world.fetch(sid, s)
        world.c.alive()


def exhaustive(n, k, caps):
    """All fetch size sequences of length k over 0..n+1"""
    import itertools
    with World(caps) as world:
        sid = world.prepare({"c": 1, "r": n, "s": SOURCES[n % len(SOURCES)]})
        for sizes in itertools.product(range(0, n + 2), repeat=k):
            world.execute(sid)
            for s in sizes:
                world.fetch(sid, s)


def huge(n):
    """Fetch sizes up to 2**32 - 1, few rows"""
    with World() as world:
        sid = world.prepare({"c": 2, "r": 5})
        world.execute(sid)
        world.fetch(sid, 2)
        world.fetch(sid, n)
        world.fetch(sid, n)


def unknown(ids):
    with World() as world:
        a = world.prepare({"c": 1, "r": 5})
        world.execute(a)
        world.fetch(a, 2)
        for i in ids:
            if i != a:
                world.fetch(i, 1)
                world.execute(i)
                world.reset(i)
                world.close(i)
        world.fetch(a, 2)
        world.close(a)
        world.fetch(a, 1)
        world.execute(a)
        world.reset(a)


def failing(at, sizes, err):
    """A source that fails: the rows before come exactly once, then ERR"""
    with World() as world:
        spec = {"c": 1, "r": at + 3, "e": err, "at": at, "s": "agen", "n": "typed"}
        other = world.prepare({"c": 1, "r": 6})
        sid = world.prepare(spec)
        world.execute(other)
        world.execute(sid)
        left = [f"{i},0" for i in range(at)]
        failed = False
        for s in sizes:
            r = world.c.fetch(sid, s)
            if failed:
                if r.kind == "rows" and r.rows:
                    raise Violation(f"rows after the failure: {r.rows}")
            elif r.kind == "err":
                if s <= len(left):
                    raise Violation(f"ERR although {len(left)} rows were left: {r.err}")
                failed = True
            else:
                got = [x[0] for x in norm(r.rows)]
                if got != left[:s] or len(got) != s:
                    raise Violation(f"{got}, {left}")
                left = left[s:]
            world.fetch(other, 1)
        world.execute(other)
        world.fetch(other, 9)


def rand(seed):
    rng = random.Random(seed)
    with World(rng.choice([0, P.DEPRECATE_EOF, P.QUERY_ATTRIBUTES | P.DEPRECATE_EOF])) as world:
        ids = []
        for _ in range(rng.randrange(10, 60)):
            x = rng.random()
            sid = rng.choice(ids) if ids and rng.random() < 0.95 else rng.choice([0, 1, 7, 2**32 - 1])
            if x < 0.12 or not ids:
                ids.append(world.prepare({"c": rng.choice([1, 1, 2, 9]), "r": rng.choice([0, 1, 2, 3, 5, 17, 40, 300]), "s": rng.choice(SOURCES),
                                          "w": rng.choice([0, 0, 300]), "n": rng.choice(["names", "typed"])}))
            elif x < 0.3:
                world.execute(sid, rng.random() < 0.8)
            elif x < 0.8:
                world.fetch(sid, rng.choice([0, 1, 1, 2, 3, 5, 10, 100, 2**31, 2**32 - 1]))
            elif x < 0.84:
                world.reset(sid)
            elif x < 0.87:
                world.close(sid)
            elif x < 0.9:
                r = world.c.query("{'c':1,'r':3}")
                if r.kind != "rows" or len(r.rows) != 3:
                    raise Violation(f"{r.kind}")
            elif x < 0.93:
                world.c.alive()
            elif x < 0.96:
                world.c.prepare("SELECT ?, 1")
                ids_new = max(world.m.stmts, default=-1) + 1
                world.m.stmts.setdefault(ids_new, [{"e": "my", "never": 1}, None])
                world.close(ids_new)
            else:
                r = world.c.query("{'e':'value'}")
                if r.kind != "err":
                    raise Violation("no error")


def mutated(seed):
    """Rows whose source the application changes only when pulled, two cursors on one shared source"""
    rng = random.Random(seed)
    with World(P.DEPRECATE_EOF) as world:
        a = world.prepare({"c": 1, "r": 23, "s": "slowagen"})
        b = world.prepare({"c": 1, "r": 23, "s": "slowagen"})
        world.execute(a)
        world.execute(b)
        for _ in range(30):
            world.fetch(rng.choice([a, b]), rng.randrange(0, 4))


SCENARIOS = {"sequence": sequence, "exhaustive": exhaustive, "huge": huge, "unknown": unknown, "failing": failing, "rand": rand,
             "mutated": mutated}


def cases(tier, seed):
    quick = tier == "quick"
    rng = random.Random(seed)
    for n in range(0, 9):
        for k in range(1, 4 if n < 7 else 3):
            for caps in (0, P.DEPRECATE_EOF):
                if (n + 2) ** k < 600 or not quick:
                    yield "exhaustive", {"n": n, "k": k, "caps": caps}
    for source in SOURCES:
        for n in (0, 1, 2, 10):
            for sizes in ([1] * 13, [3] * 5, [10, 1], [11, 1], [5, 5, 5], [2, 0, 9]):
                yield "sequence", {"n": n, "sizes": sizes, "source": source, "caps": rng.choice([0, P.DEPRECATE_EOF])}
    for n, sizes in ((20003, [9999, 2, 9999, 1, 1, 1]), (20000, [10000, 10000, 1]), (20000, [20000, 1]), (10001, [10000, 1, 1]),
                     (32768, [30000, 2767, 1, 1])):
        for source in ("gen", "agen"):
            yield "sequence", {"n": n, "sizes": sizes, "source": source, "caps": P.DEPRECATE_EOF}
    # around the output buffer's size
    for w in (1000, 5000, 32750, 40000):
        yield "sequence", {"n": 60, "sizes": [7, 33, 1, 1, 20], "source": "gen", "caps": 0, "w": w}
    for n in (2**8 - 1, 2**8, 2**16, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1):
        yield "huge", {"n": n}
    for ids in ([0, 1, 2], [2**32 - 1, 2**31], [2**8, 2**16, 2**24]):
        yield "unknown", {"ids": ids}
    for at in range(0, 6):
        for sizes in ([1] * 8, [2] * 4, [3, 3, 3], [10, 1], [at or 1, 1, 1]):
            for err in ("my", "value", "stop", "closed", "eof"):
                if err == "stop":
                    continue
                yield "failing", {"at": at, "sizes": sizes, "err": err}
    for i in range(800 if quick else 20000):
        yield "rand", {"seed": seed * 15485863 + i}
    for i in range(20):
        yield "mutated", {"seed": seed + i}
