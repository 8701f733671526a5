"""C03: every command gets exactly one complete, well-formed response (lockstep)."""
import random

from lib import proto as P
from lib.apps import ERRORS, SOURCES, SpecApp, cell
from lib.sim import Factory, ProtocolError, ServerClosed, Sim, Violation
from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
from mysql_mimic.types import Capabilities

OPTIONAL = [P.DEPRECATE_EOF, P.QUERY_ATTRIBUTES, P.CONNECT_ATTRS, P.LENENC_CLIENT_DATA]
UNSUPPORTED = [P.OPTIONAL_METADATA, P.ZSTD, P.SESSION_TRACK, P.MULTI_STATEMENTS, P.MULTI_RESULTS, 1 << 5, 1 << 7,
               1 << 22, 1 << 28, 1 << 1, 1 << 4, 1 << 8, 1 << 2, 1 << 29, 1 << 31]
SUPPORTED_COMMANDS = {1, 2, 3, 4, 0x0D, 0x0E, 0x11, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F}


def gen_spec(rng, rows_max=12):
    x = rng.random()
    spec = {"c": rng.choice([0, 1, 1, 2, 3, 7, 20]), "r": rng.choice([0, 0, 1, 2, rng.randrange(rows_max)]),
            "s": rng.choice(SOURCES), "n": rng.choice(["names", "typed"])}
    if spec["c"] == 0:
        spec["r"] = 0
    if x < 0.08:
        spec["none"] = 1
    elif x < 0.18:
        spec.update(e=rng.choice(sorted(ERRORS)), at=-1)
    elif x < 0.33 and spec["r"]:
        spec.update(e=rng.choice(sorted(set(ERRORS) - {"stop"})), at=rng.randrange(spec["r"]))
    if rng.random() < 0.15:
        spec["w"] = rng.choice([240, 250, 251, 300, 5000])
    if rng.random() < 0.2:
        spec["y"] = rng.randrange(1, 4)
    return spec


def expect_rows(spec):
    n = spec["r"]
    return [[cell(i, j, spec.get("w", 0)).encode() for j in range(spec["c"])] for i in range(n)]


def check_result(r: P.Response, spec: dict, what: str) -> None:
    err, at = spec.get("e"), spec.get("at", -1)
    if err and at < 0:
        if r.kind != "err" or r.partial:
            raise Violation(f"{what}: the application raised, got {r.kind}")
        return
    if spec.get("none") or spec["c"] == 0:
        # a source that fails while it is built
        if err and r.kind == "err":
            return
        if r.kind != "ok":
            raise Violation(f"{what}: no result set expected, got {r.kind} {r.err}")
        return
    want = expect_rows(spec)
    if err:
        if r.kind != "err":
            raise Violation(f"{what}: the source fails at row {at}, got {r.kind}")
        if r.rows != want[:len(r.rows)] or len(r.rows) > at:
            raise Violation(f"{what}: wrong rows before the error: {r.rows}")
        return
    if r.kind != "rows":
        raise Violation(f"{what}: expected rows, got {r.kind} {r.err}")
    if len(r.columns) != spec["c"]:
        raise Violation(f"{what}: {len(r.columns)} columns, expected {spec['c']}")
    if r.rows != want:
        raise Violation(f"{what}: wrong rows: {len(r.rows)} instead of {len(want)}")


class Prog:
    def __init__(self, rng, c, sim):
        self.rng, self.c, self.sim = rng, c, sim
        self.stmts = {}
        self.gone = set()

    def some_id(self):
        rng = self.rng
        if self.stmts and rng.random() < 0.85:
            return rng.choice(sorted(self.stmts))
        return rng.choice([999, 2**32 - 1] + sorted(self.gone))

    def step(self):
        rng, c = self.rng, self.c
        kind = rng.choice(["query", "query", "query", "ping", "init_db", "field_list", "prepare", "prepare", "execute",
                           "execute", "cursor", "fetch", "fetch", "reset", "close", "long", "reset_conn", "debug",
                           "unknown", "change_user", "sql", "empty"])
        getattr(self, "do_" + kind)()

    def attrs(self):
        if not self.c.caps & P.QUERY_ATTRIBUTES or self.rng.random() < 0.5:
            return None
        return [P.Param(P.T["STRING"], b"v", name=b"n")] * self.rng.randrange(3)

    def do_query(self):
        spec = gen_spec(self.rng)
        check_result(self.c.query(str(spec), self.attrs()), spec, f"COM_QUERY {spec}")

    def do_ping(self):
        self.ok(self.c.ping(), "PING")

    def ok(self, r, what):
        if r.kind != "ok":
            raise Violation(f"{what}: {r.kind} {r.err}")

    def err(self, r, what):
        if r.kind != "err" or r.partial:
            raise Violation(f"{what}: expected ERR, got {r.kind}")

    def do_init_db(self):
        self.ok(self.c.init_db(self.rng.choice([b"db", b"x", b""])), "INIT_DB")

    def do_field_list(self):
        self.ok(self.c.init_db(b"db"), "INIT_DB")
        t = self.rng.choice([b"t", b"u", b"nope"])
        r = self.c.field_list(t)
        n = {b"t": [b"a", b"b"], b"u": [b"x"], b"nope": []}[t]
        if r.kind == "err" and t == b"nope":
            return
        if r.kind != "fields" or [x.name for x in r.columns] != n:
            raise Violation(f"FIELD_LIST {t}: {r.kind} {r.err} {[x.name for x in r.columns]}")

    def do_debug(self):
        self.ok(self.c.command(bytes([P.COM_DEBUG]), "ok"), "DEBUG")

    def do_reset_conn(self):
        self.ok(self.c.command(bytes([P.COM_RESET_CONNECTION]), "ok"), "RESET_CONNECTION")
        self.gone |= set(self.stmts)
        self.stmts.clear()
        self.gone.clear()

    def do_unknown(self):
        code = self.rng.choice([x for x in range(256) if x not in SUPPORTED_COMMANDS])
        self.err(self.c.command(bytes([code]) + self.rng.randbytes(self.rng.randrange(5)), "ok"), f"command {code:#x}")

    def do_empty(self):
        self.err(self.c.command(b"", "ok"), "empty payload")

    def do_sql(self):
        sql, kind = self.rng.choice([("SELECT 1", "rows"), ("SET @@sql_mode = 'ANSI'", "ok"), ("SELECT FROM WHERE", "err"),
                                     ("SHOW TABLES FROM db", "rows"), ("BEGIN", "ok"), ("SELECT @@nope", "err"),
                                     ("KILL 4294967295", "ok"), ("USE db", "ok"), ("", None), ("  ;; ", None),
                                     ("SELECT 'unterminated", "err"), ("SHOW VARIABLES", "rows"),
                                     ("SELECT @@version; SELECT 2", "rows"), ("/* c */", None)])
        r = self.c.query(sql, self.attrs())
        if kind and r.kind != kind or not kind and r.kind not in ("ok", "err"):
            raise Violation(f"{sql!r}: {r.kind} {r.err}, expected {kind}")

    def do_change_user(self):
        p = self.c.change_user("bob", db=self.rng.choice(["", "db"]),
                               plugin=self.rng.choice([None, b"mysql_native_password", b"mysql_clear_password"]),
                               attrs=[(b"k", b"v")] if self.c.caps & P.CONNECT_ATTRS and self.rng.random() < .5 else None)
        if p[0] != 0:
            raise Violation(f"CHANGE_USER failed: {p!r}")
        P.parse_ok(p, self.c.caps)
        self.c.quiet()
        self.stmts.clear()
        self.gone.clear()

    def do_prepare(self):
        spec = gen_spec(self.rng, 30)
        n = self.rng.choice([0, 0, 1, 2, 9, 40])
        r = self.c.prepare(str(spec) + " ?" * n)
        if r.kind != "prepare" or r.n_params != n:
            raise Violation(f"PREPARE with {n} placeholders: {r.kind} {r.err} {r.n_params}")
        if r.stmt_id in self.stmts:
            raise Violation("statement id in use")
        self.stmts[r.stmt_id] = {"spec": spec, "n": n, "cursor": None}

    def params(self, st):
        out = []
        for _ in range(st["n"]):
            k = self.rng.randrange(4)
            out.append([P.Param(P.T["LONG"], 5), P.Param(P.T["STRING"], b"x'y"), P.Param(P.T["STRING"], None),
                        P.Param(P.T["DOUBLE"], 1.5)][k])
        return out

    def do_execute(self, cursor=False):
        i = self.some_id()
        st = self.stmts.get(i)
        if st is None:
            self.err(self.c.execute(i, []), "EXECUTE of an unknown statement")
            return
        st["cursor"] = None
        r = self.c.execute(i, self.params(st), self.attrs(), cursor)
        spec = st["spec"]
        if not cursor:
            check_result(r, spec, f"EXECUTE {spec}")
        elif r.kind == "rows":
            if spec.get("none") or spec["c"] == 0 or (spec.get("e") and spec.get("at") < 0):
                raise Violation(f"EXECUTE with a cursor {spec}: rows")
            if r.rows or len(r.columns) != spec["c"]:
                raise Violation("EXECUTE with a cursor sent rows")
            st["cursor"] = 0
        elif spec.get("e"):
            self.err(r, "EXECUTE with a cursor")
        else:
            if not (spec.get("none") or spec["c"] == 0):
                raise Violation(f"EXECUTE with a cursor {spec}: {r.kind} {r.err}")
            self.ok(r, "EXECUTE with a cursor, no result")

    def do_cursor(self):
        self.do_execute(True)

    def do_fetch(self):
        i = self.some_id()
        st = self.stmts.get(i)
        n = self.rng.choice([0, 1, 2, 3, 7, 100, 2**32 - 1])
        if st is None:
            self.err(self.c.command(bytes([P.COM_STMT_FETCH]) + i.to_bytes(4, "little") + n.to_bytes(4, "little"), "fetch"),
                     "FETCH of an unknown statement")
            return
        if st["cursor"] is None:
            self.err(self.c.fetch(i, n), "FETCH without a cursor")
            return
        spec = st["spec"]
        want = expect_rows(spec)[st["cursor"]:][:n]
        r = self.c.fetch(i, n)
        if spec.get("e") and spec["at"] < st["cursor"] + n:
            if r.kind != "err":
                raise Violation(f"FETCH from a failing source: {r.kind}")
            st["cursor"] = None
            return
        if r.kind != "rows" or r.rows != want:
            raise Violation(f"FETCH {n}: {r.kind} {r.err} {len(r.rows)} rows, expected {len(want)}")
        st["cursor"] += len(want)

    def do_reset(self):
        i = self.some_id()
        r = self.c.stmt_reset(i)
        if i in self.stmts:
            self.ok(r, "STMT_RESET")
            self.stmts[i]["cursor"] = None
        else:
            self.err(r, "STMT_RESET of an unknown statement")

    def do_close(self):
        i = self.some_id()
        self.c.stmt_close(i)
        if self.stmts.pop(i, None) is not None:
            self.gone.add(i)

    def do_long(self):
        i = self.some_id()
        st = self.stmts.get(i)
        if st and st["n"]:
            k = self.rng.randrange(st["n"] + 1)
            self.c.long_data(i, k, b"abc")
            if k < st["n"]:
                # discarded by a reset, so that executions with a NULL in this position stay simple
                self.ok(self.c.stmt_reset(i), "STMT_RESET")
                st["cursor"] = None
        else:
            self.c.long_data(i, 0, b"x")


def make_caps(rng):
    caps = P.BASE_CAPS
    for o in OPTIONAL:
        if rng.random() < 0.5:
            caps |= o
    unsupported = 0
    if rng.random() < 0.5:
        for u in UNSUPPORTED:
            if rng.random() < 0.4:
                unsupported |= u
    return caps, unsupported


def server_caps(rng):
    caps = DEFAULT_SERVER_CAPABILITIES
    if rng.random() < 0.3:
        for o in OPTIONAL:
            if rng.random() < 0.5:
                caps &= ~Capabilities(o)
    if rng.random() < 0.2:
        caps |= Capabilities(P.OPTIONAL_METADATA)
    return caps


def login(rng, sim):
    caps, unsupported = make_caps(rng)
    c = sim.connect(caps=caps)
    hs = c.greet()
    if hs.caps & P.OPTIONAL_METADATA and rng.random() < 0.7:
        c.want_caps = caps = caps | P.OPTIONAL_METADATA
    c.unsupported = unsupported & ~hs.caps
    kw = {}
    if caps & hs.caps & P.CONNECT_ATTRS:
        kw["attrs"] = [(b"k%d" % i, b"v" * rng.choice([0, 1, 250, 251])) for i in range(rng.randrange(4))]
    elif caps & P.CONNECT_ATTRS:
        c.want_caps &= ~P.CONNECT_ATTRS
    if rng.random() < 0.5:
        kw["db"] = rng.choice(["db", ""])
    c.login("alice", "", plugin=rng.choice([None, b"mysql_clear_password"]), **kw)
    return c


def program(seed: int, steps: int) -> None:
    rng = random.Random(seed)
    with Sim(session_factory=SpecApp, capabilities=server_caps(rng)) as sim:
        c = login(rng, sim)
        p = Prog(rng, c, sim)
        for _ in range(steps):
            p.step()
            c.quiet()
        end = rng.random()
        if end < 0.5:
            c.quit()
            if not c.closed:
                raise Violation("the connection stays open after COM_QUIT")
        else:
            c.alive()


def pipeline(seed: int) -> None:
    """Commands sent without waiting are answered one after the other"""
    rng = random.Random(seed)
    with Sim(session_factory=SpecApp) as sim:
        c = login(rng, sim)
        todo = []
        for _ in range(rng.randrange(2, 8)):
            k = rng.randrange(5)
            if k == 0:
                todo.append((bytes([P.COM_PING]), "ok", None))
            elif k == 1:
                todo.append((bytes([P.COM_INIT_DB]) + b"db", "ok", None))
            elif k == 2:
                todo.append((bytes([P.COM_STMT_CLOSE]) + bytes(4), None, None))
            else:
                spec = gen_spec(rng)
                todo.append((P.com_query(c.caps, str(spec).encode()), "query", spec))
        for payload, _, _ in todo:
            c.send(payload, 0)
        sim.settle()
        for payload, kind, spec in todo:
            if kind is None:
                continue
            c.seq = P.n_frames(len(payload))
            r = c.read_response(kind)
            if spec is not None:
                check_result(r, spec, f"pipelined {spec}")
            elif r.kind != "ok":
                raise Violation(f"pipelined: {r.kind}")
        c.quiet()
        c.alive()


def big(rows: int, src: str, binary: bool, caps: int) -> None:
    """More packets than sequence numbers"""
    with Sim(session_factory=SpecApp) as sim:
        c = sim.login("u", caps=P.BASE_CAPS | caps)
        spec = {"c": 2, "r": rows, "s": src}
        if binary:
            st = c.prepare(str(spec))
            r = c.execute(st.stmt_id, [])
        else:
            r = c.query(str(spec))
        check_result(r, spec, f"{rows} rows")
        spec = {"c": 1, "r": rows, "s": src, "e": "my", "at": rows - 1, "n": "typed"}
        r = c.query(str(spec))
        if r.kind != "err" or (src in ("gen", "agen") and len(r.rows) != rows - 1):
            raise Violation(f"error after {rows - 1} rows: {r.kind} {len(r.rows)}")
        c.alive()
        if binary:
            spec = {"c": 1, "r": rows, "s": src}
            st = c.prepare(str(spec))
            c.execute(st.stmt_id, [], cursor=True)
            r = c.fetch(st.stmt_id, rows - 1)
            if len(r.rows) != rows - 1:
                raise Violation("fetch")
            c.alive()


def wide(cols: int, params: int, deprecate: bool) -> None:
    with Sim(session_factory=SpecApp) as sim:
        c = sim.login("u", caps=P.BASE_CAPS | (P.DEPRECATE_EOF if deprecate else 0))
        spec = {"c": cols, "r": 2}
        check_result(c.query(str(spec)), spec, "wide")
        st = c.prepare(str(spec) + " ?" * params)
        if st.n_params != params:
            raise Violation(f"{st.n_params} parameters, expected {params}")
        check_result(c.execute(st.stmt_id, [P.Param(P.T["NULL"], None)] * params), spec, "wide")
        c.alive()


def unencodable(seed: int) -> None:
    """Names, messages and cells the results character set cannot represent"""
    rng = random.Random(seed)
    from lib.sim import Raw
    from mysql_mimic import ColumnType, ResultColumn
    from mysql_mimic.charset import CharacterSet
    what = rng.choice(["msg", "name", "cell", "cellbin", "type", "short"])

    def app(s, q, a):
        if what == "msg":
            raise Exception("\u2603 \u4e2d")
        if what == "name":
            return [(1,)], ["\u2603"]
        if what in ("cell", "cellbin"):
            return ((x,) for x in ("a", "\u2603", "b")), [ResultColumn("a", ColumnType.VARCHAR, CharacterSet.latin1)]
        if what == "type":
            return [(1,), ("x",)], [ResultColumn("a", ColumnType.TIMESTAMP2)]
        return [(1, 2), (3,)], ["a", "b"]
    f = Factory(lambda: Raw(app))
    with Sim(session_factory=f) as sim:
        c = login(rng, sim)
        f.sessions[0].variables.set("character_set_results", rng.choice(["latin1", "ascii", "utf8mb4"]))
        if what == "short":
            # rows shorter than the columns: undefined cells, but the connection must survive
            c.send(P.com_query(c.caps, b"q"), 0)
            sim.settle()
            b = c.buffer()
            c.consume(len(b))
        elif what == "cellbin":
            st = c.prepare("q")
            r = c.execute(st.stmt_id)
            if r.kind != "err":
                raise Violation("unencodable cell")
        else:
            r = c.query("q")
            if what in ("msg", "cell", "type") and r.kind != "err":
                raise Violation(f"{what}: {r.kind}")
        c.alive()


SCENARIOS = {"program": program, "pipeline": pipeline, "big": big, "wide": wide, "unencodable": unencodable}


def cases(tier, seed):
    n = 1 if tier == "quick" else 10
    for rows in (200, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 513, 1500):
        for src in ("list", "agen"):
            for binary in (False, True):
                for caps in (0, P.DEPRECATE_EOF):
                    yield "big", {"rows": rows, "src": src, "binary": binary, "caps": caps}
    for cols in (1, 100, 250, 251, 252, 260, 1000):
        yield "wide", {"cols": cols, "params": cols, "deprecate": bool(cols % 2)}
    base = seed * 104729
    for i in range(2500 * n):
        yield "program", {"seed": base + i, "steps": 25}
        if i % 5 == 0:
            yield "pipeline", {"seed": base + i}
            yield "unencodable", {"seed": base + i}
