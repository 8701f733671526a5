"""C17: Query attributes reach the application exactly as sent."""
import math
import random
import struct

from checks.c06 import STRINGS, a_value, check_sql, placeholders, template
from lib import proto as P
from lib.proto import Param, T
from lib.sim import Factory, Raw, Session, Sim, Violation
from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
from mysql_mimic.types import Capabilities

INT = {"TINY": 1, "SHORT": 2, "YEAR": 2, "LONG": 4, "INT24": 4, "LONGLONG": 8}
STRS = ["VARCHAR", "VAR_STRING", "STRING", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"]


def attr_value(rng):
    """(Param without a name, the Python value the application gets)"""
    x = rng.random()
    if x < 0.35:
        s = rng.choice(STRINGS) * (rng.choice([1, 1, 1, 1, 251, 260, 70000]) if rng.random() < 0.05 else 1)
        return Param(T[rng.choice(STRS)], s.encode()), s
    if x < 0.75:
        t = rng.choice(list(INT))
        n = INT[t]
        u = rng.random() < 0.5
        lo, hi = (0, (1 << 8 * n) - 1) if u else (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
        v = rng.choice([lo, hi, 0, 1, lo + 1, hi - 1, hi // 2 + 1, rng.randint(lo, hi)])
        return Param(T[t], v, u), v
    if x < 0.9:
        v = rng.choice([0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, math.inf, -math.inf, math.nan, rng.uniform(-9, 9)])
        if rng.random() < 0.5:
            v = struct.unpack("<f", struct.pack("<f", v if abs(v) < 1e30 or math.isinf(v) else 0.5))[0]
            return Param(T["FLOAT"], v), v
        return Param(T["DOUBLE"], v), v
    if x < 0.93:
        return Param(T["NULL"], 0), None  # a value of type NULL
    return Param(rng.choice([T["NULL"], T["LONG"], T["VAR_STRING"], T["DOUBLE"], T["TINY"]]), None), None


def attributes(rng, n=None):
    """Distinct names"""
    n = rng.choice([0, 1, 2, 3, 7, 8, 9, 17]) if n is None else n
    out, want = [], {}
    while len(out) < n:
        name = rng.choice(["a", "b", "traceparent", "n\u00e9", "\u4e2d", "x y", "?", "'", "%s", "_" * 260, "n"]) + str(len(out))
        p, v = attr_value(rng)
        p.name = name.encode()
        out.append(p)
        want[name] = v
    rng.shuffle(out)
    return out, want


def same(got, want, what):
    def eq(a, b):
        if isinstance(b, float):
            return type(a) is float and (a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b)
        return type(a) is type(b) and a == b
    if set(got) != set(want) or not all(eq(got[k], want[k]) for k in want):
        bad = {k: (got.get(k, "missing"), want.get(k, "unexpected")) for k in set(got) | set(want)
               if k not in got or k not in want or not eq(got[k], want[k])}
        raise Violation(f"{what}: the application got other attributes than the client sent (got, sent): {bad}")


QUERIES = ["SELECT 1", "\0\1SELECT 1", "\1\1\0\1", "\0", "\2 x", "SELECT '\u00e9'", " ", "\tSELECT 1", "", "\u00fb", "SELECT " + "x" * 300, "\n"]


def queries(seed, capable):
    """COM_QUERY"""
    rng = random.Random(seed)
    log = []
    with Sim(session_factory=lambda: Raw(log=log)) as sim:
        caps = P.BASE_CAPS | (P.QUERY_ATTRIBUTES if capable else 0) | rng.choice([0, P.DEPRECATE_EOF])
        c = sim.login("u", caps=caps)
        for _ in range(8):
            sql = rng.choice(QUERIES)
            attrs, want = attributes(rng) if capable else ([], {})
            del log[:]
            r = c.command(P.com_query(caps, sql.encode(), attrs), "query")
            if r.kind == "err":
                raise Violation(f"{sql!r} with attributes {want}: {r.err}")
            got = [x for x in log if x[0] == "query"]
            if len(got) != 1 or got[0][1] != sql:
                raise Violation(f"{sql!r} with attributes {want} reached the application as {got}")
            same(got[0][2], want, f"COM_QUERY {sql!r}")


def executes(seed, capable):
    """COM_STMT_EXECUTE, with and without positional parameters, long data, cursors"""
    rng = random.Random(seed)
    log = []
    with Sim(session_factory=lambda: Raw(log=log)) as sim:
        caps = P.BASE_CAPS | (P.QUERY_ATTRIBUTES if capable else 0)
        c = sim.login("u", caps=caps)
        for _ in range(5):
            sql = rng.choice(["SELECT 1", "SELECT ?", "SELECT ?,?,?", "SELECT '?'", None]) or template(rng)
            n = len(placeholders(sql))
            st = c.prepare(sql.encode()).stmt_id
            for _ in range(3):
                vals = [a_value(rng) for _ in range(n)]
                attrs, want = attributes(rng) if capable else ([], {})
                for p, _, _ in vals:
                    # the names of statement parameters are empty
                    p.name = b""
                for i, (_, _, chunks) in enumerate(vals):
                    for ch in chunks or ():
                        c.long_data(st, i, ch)
                if capable and rng.random() < 0.3:
                    # data for a parameter the statement doesn't have
                    c.long_data(st, n + rng.randrange(3), b"not an attribute")
                del log[:]
                params = [p for p, _, _ in vals]
                if capable and not attrs and rng.random() < 0.5:
                    # the count is only there if there are parameters
                    body = bytes([P.COM_STMT_EXECUTE]) + struct.pack("<IBI", st, 0, 1) + \
                        ((P.lenenc(n) + P.param_block(params, True)) if n else b"")
                    r = c.command(body, "execute")
                else:
                    r = c.execute(st, params, attrs, cursor=rng.random() < 0.2)
                if r.kind == "err":
                    raise Violation(f"execute of {sql!r} with {[v for _, v, _ in vals]} and attributes {want}: {r.err}")
                got = [x for x in log if x[0] == "query"]
                if len(got) != 1:
                    raise Violation(f"{len(got)} queries reached the application")
                check_sql(sql, got[0][1], [v for _, v, _ in vals])
                named = {k: v for k, v in got[0][2].items() if k}
                same(named, want, f"COM_STMT_EXECUTE {sql!r}")
                if len(named) != len(got[0][2]):
                    raise Violation(f"an attribute without a name: {got[0][2]}")


def sizes(n):
    """n attributes, so the count and the NULL bitmap need several bytes"""
    rng = random.Random(n)
    log = []
    with Sim(session_factory=lambda: Raw(log=log)) as sim:
        c = sim.login("u", caps=P.BASE_CAPS | P.QUERY_ATTRIBUTES)
        attrs, want = attributes(rng, n)
        for sql in ("SELECT 1", "SELECT ?"):
            del log[:]
            c.command(P.com_query(c.caps, sql.encode(), attrs), "query")
            same([x for x in log if x[0] == "query"][0][2], want, f"{n} attributes")
            st = c.prepare(sql.encode()).stmt_id
            k = sql.count("?")
            r = c.execute(st, [Param(T["VAR_STRING"], b"v")] * k, attrs)
            q = [x for x in log if x[0] == "query"][-1]
            if r.kind == "err" or q[1] != sql.replace("?", "'v'"):
                raise Violation(f"{n} attributes: {r.err} {q[1]!r}")
            same(q[2], want, f"{n} attributes")


def incapable(seed):
    """Without the capability on both sides there is no parameter block"""
    rng = random.Random(seed)
    log = []
    server = rng.random() < 0.5
    caps = DEFAULT_SERVER_CAPABILITIES if server else DEFAULT_SERVER_CAPABILITIES & ~Capabilities.CLIENT_QUERY_ATTRIBUTES
    with Sim(session_factory=lambda: Raw(log=log), capabilities=caps) as sim:
        c = sim.connect(caps=P.BASE_CAPS)
        c.unsupported = 0 if server else P.QUERY_ATTRIBUTES
        c.login("u")
        for sql in QUERIES:
            for first in ("", "\0", "\1", "\2", "\0\1", "\1\1"):
                del log[:]
                r = c.command(bytes([P.COM_QUERY]) + (first + sql).encode(), "query")
                if [x[1:] for x in log] != [(first + sql, {})]:
                    raise Violation(f"{first + sql!r}: the application got {log} ({r.err})")
        st = c.prepare(b"SELECT ?").stmt_id
        del log[:]
        c.execute(st, [Param(T["VAR_STRING"], b"\1\1")])
        if [x[1:] for x in log] != [("SELECT '\1\1'", {})]:
            raise Violation(f"the application got {log}")


class App(Session):
    def __init__(self):
        super().__init__()
        self.calls = []

    async def query(self, expression, sql, attrs):
        self.calls.append((sql, dict(attrs)))
        return [(1,)], ["a"]


def session(seed):
    """Through Session.handle_query: every statement of the text comes with the attributes"""
    rng = random.Random(seed)
    f = Factory(App)
    with Sim(session_factory=f) as sim:
        c = sim.login("u", caps=P.BASE_CAPS | P.QUERY_ATTRIBUTES)
        s = f.sessions[-1]
        for sql, k in [("SELECT a FROM t", 1), ("SELECT a FROM t; SELECT b FROM u", 2), ("SELECT 1", 0), ("SELECT /*+ SET_VAR(time_zone='+01:00') */ a FROM t", 1),
                       ("SET @@sql_mode = 'x'; SELECT a FROM t", 1), ("SHOW TABLES FROM mysql", 0)]:
            attrs, want = attributes(rng)
            s.calls.clear()
            r = c.command(P.com_query(c.caps, sql.encode(), attrs), "query")
            if len(s.calls) != k:
                raise Violation(f"{sql!r}: {len(s.calls)} statements reached the application ({r.err})")
            for _, a in s.calls:
                same(a, want, sql)


SCENARIOS = {"queries": queries, "executes": executes, "sizes": sizes, "incapable": incapable, "session": session}


def cases(tier, seed):
    quick = tier == "quick"
    for n in list(range(0, 40)) + [249, 250, 251, 252, 255, 256, 1000] + ([] if quick else [65535, 65536]):
        yield "sizes", {"n": n}
    for i in range(60 if quick else 3000):
        for cap in (True, True, False):
            s = seed * 86028121 + i * 3
            yield "queries", {"seed": s + cap, "capable": cap}
            yield "executes", {"seed": s + cap, "capable": cap}
        yield "session", {"seed": s}
        if i < 4:
            yield "incapable", {"seed": s}
