"""C05: clients decode exactly the values the application returned (text and binary)."""
import itertools
import random
import struct
from datetime import date, datetime, timedelta, timezone
from decimal import Decimal

from lib import proto as P
from lib.apps import AIter
from lib.charsets import CODEC, codec_of
from lib.sim import Factory, ProtocolError, Raw, Sim, Violation
from mysql_mimic import ColumnType, ResultColumn, ResultSet
from mysql_mimic.charset import CharacterSet

MEM = 8 << 30
T = ColumnType
CHARSETS = [c for c in CharacterSet if CODEC.get(c.name)]
UTC_OFFSETS = [timezone.utc, timezone(timedelta(hours=-5, minutes=-30))]


def chars(codec, rng, n):
    out = []
    while len(out) < n:
        x = rng.random()
        c = chr(rng.randrange(32, 127)) if x < .4 else chr(rng.randrange(0x80, 0x600)) if x < .6 else \
            chr(rng.choice([rng.randrange(0x3040, 0x30FF), rng.randrange(0x4E00, 0x9FFF), rng.randrange(0xAC00, 0xD7A3),
                            rng.randrange(0x1F300, 0x1F6FF), rng.randrange(0, 32), 0x20AC, 0xA0]))
        try:
            if c.encode(codec).decode(codec) == c:
                out.append(c)
        except UnicodeError:
            pass
    return "".join(out)


LENGTHS = [0, 1, 2, 7, 249, 250, 251, 252, 255, 256, 1000]
LONG = [65534, 65535, 65536, 65537, 70000]


def text(rng, codec):
    n = rng.choice(LENGTHS) if rng.random() < 0.3 else rng.randrange(12)
    if rng.random() < 0.004:
        return "y" * rng.choice(LONG)
    if n > 12:
        return (chars(codec, rng, 7) * (n // 7 + 1))[:n]
    return chars(codec, rng, n)


def edge(rng, bits):
    lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
    return rng.choice([lo, lo + 1, -1, 0, 1, hi - 1, hi, rng.randint(lo, hi), rng.randint(-300, 300) if bits > 9 else 5])


def f32(rng):
    v = rng.choice([0.0, -0.0, 1.5, -2.25, 3.4028234663852886e38, 1.401298464324817e-45, 1e10, rng.uniform(-1e6, 1e6)])
    return struct.unpack("<f", struct.pack("<f", v))[0]


def f64(rng):
    while True:
        v = rng.choice([0.0, -0.0, 0.1, 1e308, 5e-324, -1.7976931348623157e308, 1e16, 123456789.125, 1e-7,
                        struct.unpack("<d", rng.randbytes(8))[0]])
        if v == v and abs(v) != float("inf"):
            return v


def any_date(rng):
    return date.fromordinal(rng.choice([1, 366, 693596, 735599, 3652059, rng.randrange(1, 3652060)]))


def any_datetime(rng):
    d = any_date(rng)
    h, m, s = rng.choice([(0, 0, 0), (23, 59, 59), (0, 0, 1), (0, 1, 0), (1, 0, 0),
                          (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
    us = rng.choice([0, 0, 1, 10, 100000, 999999, 500000, rng.randrange(1000000)])
    return datetime(d.year, d.month, d.day, h, m, s, us)


def any_delta(rng):
    d = rng.choice([0, 0, 1, 2, 34])
    s = rng.choice([0, 1, 59, 60, 61, 3599, 3600, 86399, rng.randrange(86400)])
    us = rng.choice([0, 0, 1, 999999, 100000, rng.randrange(1000000)])
    v = timedelta(days=d, seconds=s, microseconds=us)
    return -v if rng.random() < 0.45 else v


def any_decimal(rng):
    return rng.choice([Decimal(0), Decimal("-1.50"), Decimal("123456789012345678901234567890.12345"), Decimal("0.0000001"),
                       Decimal(rng.randrange(-10**9, 10**9)).scaleb(-rng.randrange(6))])


INT_BITS = {T.TINY: 8, T.SHORT: 16, T.INT24: 24, T.LONG: 32, T.LONGLONG: 64}


def value(rng, t, codec):
    if t in INT_BITS:
        v = edge(rng, INT_BITS[t])
        return bool(v & 1) if rng.random() < 0.1 else v
    if t == T.BOOL:
        return rng.choice([True, False, 0, 1])
    if t == T.YEAR:
        return rng.choice([0, 1901, 2155, 2000])
    if t == T.FLOAT:
        return rng.choice([f32(rng), f32(rng), rng.randrange(-1000, 1000)])
    if t == T.DOUBLE:
        return rng.choice([f64(rng), f64(rng), f64(rng), rng.randrange(-10**6, 10**6), True])
    if t in (T.DECIMAL, T.NEWDECIMAL):
        return rng.choice([any_decimal(rng), any_decimal(rng), rng.randrange(-10**20, 10**20)])
    if t in (T.DATETIME, T.TIMESTAMP):
        v = any_datetime(rng)
        return v.replace(tzinfo=rng.choice(UTC_OFFSETS)) if rng.random() < 0.2 else v
    if t == T.DATE:
        return any_date(rng)
    if t == T.TIME:
        return any_delta(rng)
    if t == T.BIT:
        return rng.choice([0, 1, 255, 256, 2**63, 2**64 - 1, rng.randrange(2**64), b"\1", b"\0\xff", True])
    if t in (T.BLOB, T.TINY_BLOB, T.MEDIUM_BLOB, T.LONG_BLOB, T.GEOMETRY):
        return rng.choice([rng.randbytes(rng.randrange(20)), b"", b"\0", b"\xfb", b"\xfe\xff", rng.randbytes(rng.choice(LENGTHS)),
                           text(rng, codec)])
    return text(rng, codec)


TYPES = [T.DECIMAL, T.NEWDECIMAL, T.TINY, T.SHORT, T.INT24, T.LONG, T.LONGLONG, T.BOOL, T.YEAR, T.FLOAT, T.DOUBLE, T.DATETIME,
         T.TIMESTAMP, T.DATE, T.TIME, T.BIT, T.BLOB, T.TINY_BLOB, T.MEDIUM_BLOB, T.LONG_BLOB, T.GEOMETRY, T.VARCHAR,
         T.VAR_STRING, T.STRING, T.ENUM, T.SET, T.JSON]
STRINGS = {T.VARCHAR, T.VAR_STRING, T.STRING, T.ENUM, T.SET, T.JSON}
BARE = [T.TINY, T.LONGLONG, T.DOUBLE, T.VARCHAR, T.BLOB, T.DATE, T.DATETIME, T.TIME, T.NEWDECIMAL, T.BOOL]


def bare_value(rng, t):
    """Values of one Python type"""
    if t == T.BOOL:
        return rng.random() < 0.5
    if t == T.TINY:
        return rng.randrange(-100, 100)
    if t == T.LONGLONG:
        return edge(rng, 64)
    if t == T.DOUBLE:
        return f64(rng)
    if t == T.VARCHAR:
        return text(rng, "utf-8")
    if t == T.BLOB:
        return rng.randbytes(rng.randrange(12))
    if t == T.NEWDECIMAL:
        return any_decimal(rng)
    if t == T.DATETIME:
        return any_datetime(rng)
    return value(rng, t, "utf-8")


def same(v, got, col: P.ColDef, binary: bool) -> bool:
    """Does the decoded cell denote the application's value?"""
    if v is None or got is None:
        return v is None and got is None
    if isinstance(v, bool):
        v = int(v)
    t = col.type
    if t == P.T["BIT"]:
        if isinstance(v, int):
            return isinstance(got, bytes) and int.from_bytes(got, "big") == v and len(got) <= 8
        return got == v
    if isinstance(v, bytes):
        return got == v
    if isinstance(v, str):
        c = codec_of(col.charset)
        try:
            return isinstance(got, bytes) and c is not None and got.decode(c) == v
        except UnicodeError:
            return False
    if isinstance(v, Decimal):
        return isinstance(got, bytes) and Decimal(got.decode("ascii")) == v
    if isinstance(v, datetime):
        return got == ("dt", v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
    if isinstance(v, date):
        return got == ("dt", v.year, v.month, v.day, 0, 0, 0, 0)
    if isinstance(v, timedelta):
        return got == v
    if isinstance(v, float):
        if t not in (P.T["FLOAT"], P.T["DOUBLE"]):
            return False
        return got == v and str(got) == str(v)
    if isinstance(v, int):
        if t in (P.T["DECIMAL"], P.T["NEWDECIMAL"]):
            return got == str(v).encode()
        if t in (P.T["FLOAT"], P.T["DOUBLE"]):
            return got == v
        return type(got) is int and got == v
    return False


def compare(r: P.Response, rows, names, binary, what, results_codec="utf-8", types=None):
    if r.kind != "rows":
        raise Violation(f"{what}: {r.kind} {r.err}")
    got_names = [c.name.decode(results_codec) for c in r.columns]
    if got_names != names:
        raise Violation(f"{what}: column names {got_names}, expected {names}")
    if types is not None and [c.type for c in r.columns] != types:
        raise Violation(f"{what}: column types {[c.type for c in r.columns]}, declared {types}")
    if len(r.rows) != len(rows):
        raise Violation(f"{what}: {len(r.rows)} rows, the application returned {len(rows)}")
    for i, (row, got) in enumerate(zip(rows, r.rows)):
        if len(got) != len(row):
            raise Violation(f"{what}: row {i} has {len(got)} cells")
        for j, (v, g) in enumerate(zip(row, got)):
            d = g if binary or g is None else P.text_value(g, r.columns[j])
            if not same(v, d, r.columns[j], binary):
                raise Violation(f"{what}: row {i} column {j} (type {r.columns[j].type}): got {str(d)[:200]!r}, "
                                f"the application returned {str(v)[:200]!r} ({type(v).__name__})")


def source(rows, kind):
    if kind == "list":
        return list(rows)
    if kind == "tuple":
        return tuple(rows)
    if kind == "gen":
        return (r for r in rows)
    if kind == "iter":
        return iter(rows)
    if kind == "aiter":
        return AIter(rows)

    async def agen():
        for r in rows:
            yield r
    return agen()


KINDS = ["list", "tuple", "gen", "iter", "aiter", "agen"]


class App:
    def __init__(self):
        self.make = None
        self.f = Factory(lambda: Raw(lambda s, q, a: self.make()))


def through(make, rows, names, what, caps=0, fetch=0, types=None):
    """Send the result through both protocols"""
    app = App()
    app.make = make
    with Sim(session_factory=app.f, hang=20) as sim:
        c = sim.login("u", caps=P.BASE_CAPS | caps)
        compare(c.query("q"), rows, names, False, what + " text", types=types)
        st = c.prepare("q").stmt_id
        compare(c.execute(st), rows, names, True, what + " binary", types=types)
        if fetch:
            r = c.execute(st, cursor=True)
            if r.kind != "rows":
                raise Violation(f"{what}: cursor {r.kind} {r.err}")
            got = []
            while True:
                x = c.fetch(st, fetch)
                got += x.rows
                if x.kind != "rows" or x.status & P.STATUS_LAST_ROW_SENT or len(got) > len(rows) + 5:
                    break
            r.rows = got
            compare(r, rows, names, True, what + " cursor", types=types)
        c.alive()


def shape(seed: int) -> None:
    rng = random.Random(seed)
    ncols = rng.choice([1, 1, 2, 3, 5, 6, 7, 8, 13, 14, 15, 16, 22, 23, 40])
    nrows = rng.choice([0, 1, 2, 3, 10])
    nullp = rng.choice([0, 0.1, 0.5, 0.9])
    names, cols, gens = [], [], []
    pool = ["a", "b", "x y", "\u00fcml", "\u4e2d\u6587", "", "n" * 300, "\U0001f511", "`"]
    for _ in range(ncols):
        name = rng.choice(pool)
        names.append(name)
        if rng.random() < 0.4:
            t = rng.choice(BARE)
            cols.append(name)
            gens.append(lambda t=t: bare_value(rng, t))
        else:
            t = rng.choice(TYPES)
            cs = rng.choice(CHARSETS) if rng.random() < 0.5 and t in STRINGS else CharacterSet.utf8mb4
            cols.append(ResultColumn(name, t, cs))
            gens.append(lambda t=t, k=CODEC[cs.name]: value(rng, t, k))
    rows = [tuple(None if rng.random() < nullp else g() for g in gens) for _ in range(nrows)]
    if rng.random() < 0.3:
        rows = [list(r) for r in rows]
    kind = rng.choice(KINDS)
    typed = all(isinstance(x, ResultColumn) for x in cols)
    as_rs = typed and rng.random() < 0.5
    colseq = rng.choice([list, tuple])(cols)

    def make():
        if as_rs:
            return ResultSet(source(rows, kind), colseq)
        return source(rows, kind), colseq
    through(make, rows, names, f"{kind}", rng.choice([0, P.DEPRECATE_EOF]), rng.choice([0, 0, 1, 2, 5]),
            [int(x.type) for x in cols] if typed else None)


def nulls(ncols: int, typed: bool) -> None:
    """Every NULL pattern (few columns), or every pattern with one or two (non-)NULLs"""
    if ncols <= 9:
        pats = list(itertools.product([0, 1], repeat=ncols))
    else:
        pats = []
        for i in range(ncols):
            for j in range(i, ncols):
                p = [0] * ncols
                p[i] = p[j] = 1
                pats.append(tuple(p))
                pats.append(tuple(1 - x for x in p))
        pats += [(0,) * ncols, (1,) * ncols]
    rows = [tuple(None if n else 1000 * i + j for j, n in enumerate(p)) for i, p in enumerate(pats)]
    names = [f"c{j}" for j in range(ncols)]
    cols = [ResultColumn(n, T.LONG) for n in names] if typed else names
    through(lambda: (list(rows), cols), rows, names, f"{ncols} columns")


def infer(seed: int) -> None:
    """Bare names: leading NULLs in any pattern; no row is dropped, repeated or moved"""
    rng = random.Random(seed)
    ncols = rng.randrange(1, 6)
    nrows = rng.randrange(0, 12)
    ts = [rng.choice(BARE) for _ in range(ncols)]
    names = [rng.choice("ab") for _ in range(ncols)]
    first = [rng.choice([0, 0, 1, 2, nrows - 1, nrows, rng.randrange(nrows + 1)]) for _ in range(ncols)]
    rows = []
    for i in range(nrows):
        rows.append(tuple(None if i < first[j] or (i > first[j] and rng.random() < 0.2) else bare_value(rng, ts[j])
                          for j in range(ncols)))
    cols = [n if rng.random() < 0.8 else ResultColumn(n, {T.BOOL: T.TINY}.get(t, t)) for n, t in zip(names, ts)]
    kind = rng.choice(KINDS)
    through(lambda: (source(rows, kind), list(cols)), rows, names, f"inference {kind}", fetch=rng.choice([0, 1, 3]))


def sweep(kind: str, part: int) -> None:
    """Systematic values of one type"""
    if kind == "tiny":
        vals, t = list(range(-128, 128)), T.TINY
    elif kind == "short":
        vals, t = list(range(-32768 + part * 8192, -32768 + (part + 1) * 8192)), T.SHORT
    elif kind in ("int24", "long", "longlong"):
        t = {"int24": T.INT24, "long": T.LONG, "longlong": T.LONGLONG}[kind]
        b = INT_BITS[t]
        vals = sorted({s * (1 << k) + d for k in range(b) for s in (1, -1) for d in (-1, 0, 1)
                       if -(1 << b - 1) <= s * (1 << k) + d < 1 << b - 1})
    elif kind == "date":
        vals, t = [date.fromordinal(n) for n in range(1 + part, 3652060, 997)], T.DATE
    elif kind == "datetime":
        t = T.DATETIME
        vals = [datetime(2024, 2, 29, h, m, s, us) for h in (0, 1, 12, 23) for m in (0, 1, 59) for s in (0, 1, 59)
                for us in (0, 1, 10, 999, 1000, 123456, 100000, 999999)]
    elif kind == "time":
        t = T.TIME
        vals = [sg * timedelta(days=d, hours=h, minutes=m, seconds=s, microseconds=us) for sg in (1, -1)
                for d in (0, 1, 2, 4, 30) for h in (0, 1, 4, 9, 10, 23) for m in (0, 1, 59) for s in (0, 1, 59)
                for us in (0, 1, 500000, 999999)]
        vals += [timedelta(hours=838, minutes=59, seconds=59), -timedelta(hours=838, minutes=59, seconds=59)]
    elif kind == "length":
        t = T.VARCHAR
        vals = ["l" * n for n in list(range(0, 300)) + [65534, 65535, 65536, 65537, 70001]]
    elif kind == "bytes":
        t = T.BLOB
        vals = [bytes([b]) for b in range(256)] + [bytes([b]) * 3 for b in range(256)] + [bytes([b, 0]) for b in range(256)]
    elif kind == "bit":
        t = T.BIT
        vals = sorted({(1 << k) + d for k in range(64) for d in (-1, 0, 1) if 0 <= (1 << k) + d < 1 << 64})
    else:
        t = T.BOOL
        vals = [True, False, 0, 1]
    rows = [(v, None if i % 3 else v) for i, v in enumerate(vals)]
    cols = [ResultColumn("a", t), ResultColumn("a", t)]
    through(lambda: (list(rows), cols), rows, ["a", "a"], f"sweep {kind}", types=[int(t)] * 2)


def repertoire(cs: str) -> None:
    """Every character of a column character set"""
    charset = CharacterSet[cs]
    codec = CODEC[cs]
    vals = []
    for lo in list(range(0, 0xD800, 256)) + list(range(0xE000, 0x30000, 256)):
        s = []
        for cp in range(lo, lo + 256):
            ch = chr(cp)
            try:
                if ch.encode(codec).decode(codec) == ch:
                    s.append(ch)
            except UnicodeError:
                pass
        if s:
            vals.append("".join(s))
            try:
                if vals[-1].encode(codec).decode(codec) != vals[-1]:
                    vals[-1] = vals[-1][:1]
            except UnicodeError:
                vals[-1] = vals[-1][:1]
    rows = [(v,) for v in vals]
    cols = [ResultColumn("a", T.VARCHAR, charset)]
    through(lambda: (list(rows), cols), rows, ["a"], f"character set {cs}")


def many(n: int, kind: str) -> None:
    rows = [(i, str(i), None if i % 7 else i / 2) for i in range(n)]
    through(lambda: (source(rows, kind), ["i", "s", "f"]), rows, ["i", "s", "f"], f"{n} rows {kind}", fetch=777)


def none_result(seed: int) -> None:
    """No columns: no result set"""
    app = App()
    with Sim(session_factory=app.f) as sim:
        c = sim.login("u")
        for make in (lambda: None, lambda: ([], []), lambda: ResultSet([], [])):
            app.make = make
            r = c.query("q")
            if r.kind != "ok":
                raise Violation(f"no result: {r.kind} {r.err}")
            st = c.prepare("q").stmt_id
            if c.execute(st).kind != "ok":
                raise Violation("no result")


SCENARIOS = {"shape": shape, "nulls": nulls, "infer": infer, "sweep": sweep, "repertoire": repertoire, "many": many,
             "none_result": none_result}


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    yield "none_result", {"seed": 0}
    for kind in ("tiny", "int24", "long", "longlong", "datetime", "time", "length", "bytes", "bit", "bool"):
        yield "sweep", {"kind": kind, "part": 0}
    for part in range(8):
        yield "sweep", {"kind": "short", "part": part}
    for part in range(2 * n):
        yield "sweep", {"kind": "date", "part": part}
    for ncols in range(1, 27):
        for typed in (True, False):
            yield "nulls", {"ncols": ncols, "typed": typed}
    for cs in CHARSETS:
        yield "repertoire", {"cs": cs.name}
    for kind in KINDS:
        yield "many", {"n": 3000 * n, "kind": kind}
    base = seed * 15485863
    for i in range(3000 * n):
        yield "shape", {"seed": base + i}
        if i % 2:
            yield "infer", {"seed": base + i}
