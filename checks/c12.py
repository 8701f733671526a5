"""C12: Results stream lazily, with back-pressure, and without starving other clients."""
import asyncio
import resource

from lib import proto as P
from lib.proto import Param, T
from lib.sim import Factory, Raw, Sim, Violation
from mysql_mimic import ColumnType, ResultColumn, ResultSet

# Any fixed bounds will do: the largest amount a server may hold for a client that doesn't read
# (transport high-water mark, its own buffer, one row), in bytes and rows
MAX_BYTES = 1 << 20
MAX_ROWS = 25_000
MAX_WITNESS = 50_000


class Source:
    def __init__(self, width, total, kind, typed, nulls=0):
        self.pulled = 0
        self.bytes = 0
        self.width, self.total, self.kind, self.typed, self.nulls = width, total, kind, typed, nulls

    stop = None

    def row(self, i):
        self.pulled += 1
        if self.stop is not None and self.pulled > self.stop + 10:
            raise Violation("rows are pulled without end while another client waits")
        self.bytes += self.width + 4
        return (None,) if i < self.nulls else ("x" * self.width,)

    def gen(self):
        i = 0
        while self.total is None or i < self.total:
            yield self.row(i)
            i += 1

    async def agen(self):
        for r in self.gen():
            yield r

    async def slow(self):
        for r in self.gen():
            if self.pulled % 7 == 0:
                await asyncio.sleep(0)
            yield r

    def rows(self):
        if self.kind == "gen":
            return self.gen()
        if self.kind == "iter":
            src = self

            class It:
                def __iter__(self):
                    return src.gen()
            return It()
        if self.kind == "aiter":
            src = self

            class AIt:
                def __aiter__(self):
                    self.g = src.gen()
                    return self

                async def __anext__(self):
                    try:
                        return next(self.g)
                    except StopIteration:
                        raise StopAsyncIteration() from None
            return AIt()
        return {"agen": self.agen, "slow": self.slow}[self.kind]()

    def result(self):
        if self.typed == "rs":
            return ResultSet(self.rows(), [ResultColumn("a", ColumnType.VARCHAR)])
        if self.typed == "cols":
            return self.rows(), [ResultColumn("a", ColumnType.VARCHAR)]
        return self.rows(), ["a"]


class World:
    def __init__(self, src, caps=0):
        self.src = src
        self.f = Factory(lambda: Raw(lambda s, sql, attrs: src.result()))
        self.sim = Sim(session_factory=self.f, hang=30)
        self.w = self.sim.login("witness")
        self.c = self.sim.login("user", caps=P.BASE_CAPS | caps)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.sim.shutdown()

    def start(self, proto, fetch=0):
        """Send the command that streams the rows"""
        c = self.c
        if proto == "text":
            c.tr.client_accept(0)
            c.send(P.com_query(c.caps, b"q"), 0)
        elif proto == "binary":
            c.prepare("q")
            c.tr.client_accept(0)
            c.send(P.com_stmt_execute(c.caps, 0, [], None, False), 0)
        elif proto == "cursor":
            c.prepare("q")
            c.execute(0, [], cursor=True)
            if self.src.pulled > MAX_ROWS:
                raise Violation(f"{self.src.pulled} rows pulled to open a cursor")
            c.tr.client_accept(0)
            c.send(bytes([P.COM_STMT_FETCH]) + bytes(4) + fetch.to_bytes(4, "little"), 0)

    def busy(self, limit):
        """Run until blocked, or the source was pulled more often than allowed"""
        n = 0
        while self.sim.ready:
            self.sim.step()
            n += 1
            if self.src.pulled > limit:
                raise Violation(f"{self.src.pulled} rows pulled while the client doesn't read (bound {limit})")
            if n > 60000:
                raise Violation("the server is busy while the client doesn't read")


def pressure(proto, width, kind, typed, total, windows, caps, nulls=0):
    """Rows pulled vs. bytes accepted"""
    src = Source(width, total, kind, typed, nulls)
    with World(src, caps) as w:
        w.start(proto, 2**32 - 1)
        taken = 0
        for win in [0] + windows:
            w.c.tr.client_accept(win)
            taken += win
            limit = MAX_ROWS + taken // 5
            by = MAX_BYTES + taken
            w.busy(limit)
            if src.bytes > by + 2 * width + nulls * (width + 4):
                raise Violation(f"{src.bytes} bytes of rows pulled, the client took {taken}")
            # one row at most besides the bytes handed over
            held = src.bytes - nulls * width - len(w.c.tr.out)
            if held > MAX_BYTES + 2 * width:
                raise Violation(f"{held} bytes are held for a client that doesn't read")
        w.w.alive()
        if w.c.tr.pending_size > MAX_BYTES + width * 2:
            raise Violation(f"{w.c.tr.pending_size} bytes queued")
        if total is not None:
            w.c.tr.client_accept(None)
            w.sim.settle()
            if src.pulled != total:
                raise Violation(f"{src.pulled} rows of {total} pulled")


def witness(proto, width, kind, typed, caps, fetch):
    """Another connection's commands are answered while one streams without end to a client that reads everything"""
    src = Source(width, None, kind, typed)
    with World(src, caps) as w:
        c = w.c
        if proto == "text":
            c.send(P.com_query(c.caps, b"q"), 0)
        else:
            c.prepare("q")
            if proto == "binary":
                c.send(P.com_stmt_execute(c.caps, 0, [], None, False), 0)
            else:
                c.execute(0, [], cursor=True)
                c.send(bytes([P.COM_STMT_FETCH]) + bytes(4) + fetch.to_bytes(4, "little"), 0)
        for _ in range(8):
            w.sim.step()
        for i in range(6):
            before = src.pulled
            w.w.send(bytes([P.COM_PING]), 0)
            n = 0
            while not w.w.buffer():
                w.sim.step()
                n += 1
                if src.pulled - before > MAX_WITNESS:
                    raise Violation(f"a PING waits for {src.pulled - before} rows of another connection")
                if n > 100000:
                    raise Violation("PING not answered")
                if not w.sim.ready:
                    raise Violation("PING not answered")
            w.w.read_response("ok")
            # drop what the streaming client has read
            c.pos = len(c.tr.out)
            del c.tr.out[:]
            c.pos = 0
        if src.pulled < 100:
            raise Violation("the result isn't streamed")


def peeking(proto, kind):
    """Nor are they kept waiting by a result whose first rows are NULL, however many"""
    src = Source(1, None, kind, "names", nulls=2**40)
    with World(src) as w:
        c = w.c
        if proto == "text":
            c.send(P.com_query(c.caps, b"q"), 0)
        else:
            c.prepare("q")
            c.send(P.com_stmt_execute(c.caps, 0, [], None, proto == "cursor"), 0)
        for i in range(4):
            before = src.pulled
            w.w.send(bytes([P.COM_PING]), 0)
            while not w.w.buffer():
                if not w.sim.ready:
                    raise Violation("PING not answered")
                src.stop = before + MAX_WITNESS
                w.sim.step()
                if src.pulled - before > MAX_WITNESS:
                    raise Violation(f"a PING waits for {src.pulled - before} rows of another connection")
            w.w.read_response("ok")


def memory(proto, kind):
    """An unbounded result uses bounded memory: the server holds no row once it was sent"""
    import weakref

    class Cell(str):
        pass

    alive = weakref.WeakSet()
    n = [0]

    def gen():
        while True:
            n[0] += 1
            v = Cell("y" * 200)
            alive.add(v)
            yield [v]

    async def agen():
        for r in gen():
            yield r

    f = Factory(lambda: Raw(lambda s, sql, attrs: (gen() if kind == "gen" else agen(), ["a"])))
    with Sim(session_factory=f, hang=30) as sim:
        c = sim.login()
        if proto == "text":
            c.send(P.com_query(c.caps, b"q"), 0)
        else:
            c.prepare("q")
            if proto == "binary":
                c.send(P.com_stmt_execute(c.caps, 0, [], None, False), 0)
            else:
                c.execute(0, [], cursor=True)
                c.send(bytes([P.COM_STMT_FETCH]) + bytes(4) + b"\xff\xff\xff\x7f", 0)
        while n[0] < 60000:
            sim.step()
            del c.tr.out[:]
            if len(alive) > MAX_ROWS:
                raise Violation(f"{len(alive)} of {n[0]} rows are kept in memory")


def open_cursors():
    """Opening cursors on unbounded results pulls a bounded number of rows and leaves others served"""
    src = Source(10, None, "gen", "names")
    with World(src) as w:
        w.c.prepare("q")
        for _ in range(20):
            before = src.pulled
            w.c.execute(0, [], cursor=True)
            if src.pulled - before > 1000:
                raise Violation(f"{src.pulled - before} rows pulled to open a cursor")
        before = src.pulled
        w.c.fetch(0, 5)
        if src.pulled - before > 1000:
            raise Violation(f"{src.pulled - before} rows pulled for a fetch of 5")
        w.w.alive()


SCENARIOS = {"pressure": pressure, "witness": witness, "peeking": peeking, "memory": memory, "open_cursors": open_cursors}


def cases(tier, seed):
    quick = tier == "quick"
    for proto in ("text", "binary", "cursor"):
        for kind in ("gen", "iter", "agen", "aiter", "slow"):
            for typed in ("names", "cols", "rs"):
                for width in (1, 100, 20000) if not quick or kind in ("gen", "agen") else (100,):
                    for caps in (0, P.DEPRECATE_EOF) if not quick else ((0,) if width == 100 else (P.DEPRECATE_EOF,)):
                        yield "pressure", {"proto": proto, "width": width, "kind": kind, "typed": typed, "total": None,
                                           "windows": [1, 10, 1000, 30000, 70000, 200000], "caps": caps}
                        yield "witness", {"proto": proto, "width": width, "kind": kind, "typed": typed, "caps": caps, "fetch": 2**31}
        yield "pressure", {"proto": proto, "width": 3_000_000, "kind": "gen", "typed": "cols", "total": None, "windows": [10, 4000000], "caps": 0}
        yield "pressure", {"proto": proto, "width": 100, "kind": "gen", "typed": "cols", "total": 3000, "windows": [10, 40000], "caps": 0}
        yield "pressure", {"proto": proto, "width": 100, "kind": "gen", "typed": "names", "total": 3000, "windows": [10], "caps": 0, "nulls": 40}
        yield "pressure", {"proto": proto, "width": 20000, "kind": "gen", "typed": "cols", "total": None, "windows": [40_000_000, 100_000], "caps": 0}
        for kind in ("gen", "agen", "aiter"):
            yield "peeking", {"proto": proto, "kind": kind}
        for kind in ("gen", "agen"):
            yield "memory", {"proto": proto, "kind": kind}
    yield "open_cursors", {}


def known():
    """Type inference reads rows until every column has a value: a column that is always NULL is read to the end"""
    src = Source(1, 200_000, "gen", "names", nulls=200_000)
    with World(src) as w:
        w.start("text")
        n = 0
        while w.sim.ready and n < 60000:
            w.sim.step()
            n += 1
        return src.pulled > 100_000


KNOWN = {"C12-peek-null": (known, "rows of a bare-named column that is always NULL are all pulled (and kept) before the first is sent, "
                                  "because the column's type is inferred from its first value")}
