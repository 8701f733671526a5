"""results.py: a client's decoder gives back the application's value, for every column type, in both protocols.

The expected encodings are written from the protocol documentation.  Numbers, dates and times are ASCII text in the text protocol
(numeric and temporal columns have an ASCII compatible character set)."""
import datetime

import z3

from contracts.common import enc, fam_bool
from dv import shadow, sym
from dv.core import Skip, term, unit
from dv.shadow import Invariant
from dv.spec import And, Implies, Not, Or, at, cat, eq, ite, le, length, lenstr, les, raises, run, symbolic

INTS = {"TINY": 1, "BOOL": 1, "SHORT": 2, "YEAR": 2, "LONG": 4, "INT24": 4, "LONGLONG": 8}
STRINGS = ["VARCHAR", "VAR_STRING", "STRING", "ENUM", "SET", "JSON", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB", "BLOB", "GEOMETRY"]


def column(v, typ, cs=None):
    m, t = v.mod("results"), v.mod("types")
    kw = {} if cs is None else {"character_set": cs}
    return m.ResultColumn(name="c", type=t.ColumnType[typ], **kw)


def ascii_(s):
    """ASCII text as bytes"""
    if isinstance(s, sym.SStr):
        return sym.encode(s, "utf8")
    return s.encode("ascii")


def dec(x):
    """Decimal digits of an integer"""
    return ascii_(sym.fmt_int(x) if symbolic() else str(int(x)))


def digits(x, n):
    """x as n decimal digits, 0 <= x < 10**n"""
    if symbolic():
        return ascii_(shadow.fmt4(x) if n == 4 else sym.fmt_int(x, "02" if n == 2 else "06"))
    return b"%0*d" % (n, x)


@unit("C05", "results.ResultColumn.text_encode results.ResultColumn.binary_encode results._text_encode_number results._text_encode_tiny "
      "results._binary_encode_tiny results._binary_encode_short results._binary_encode_long results._binary_encode_longlong")
def integer_columns(v):
    """Integers within the column type's range, booleans as 0 and 1"""
    typ = v.pick("type", sorted(INTS))
    w = INTS[typ]
    col = column(v, typ)
    if v.choose(2, "bool?"):
        x = v.bool("value")
        n = ite(x, 1, 0)
    else:
        x = n = v.int("value", -(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1)
    v.check("text protocol: the integer in decimal", eq(col.text_encode(x), dec(n)))
    v.check("binary protocol: the integer in the column's width", eq(col.binary_encode(x), les(n, w)))


class Num:
    """A number that isn't a Python int or float, e.g. decimal.Decimal: its text is its value"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def _str(self):
        return self.text


@unit("C05", "results.ResultColumn.text_encode results.ResultColumn.binary_encode results._text_encode_number results._binary_encode_str",
      assumes=["str() of a Decimal is its value"])
def decimal_columns(v):
    col = column(v, v.pick("type", ["DECIMAL", "NEWDECIMAL"]))
    s = v.text("number")
    x = Num(s)
    want = sym.encode(s, "utf8") if symbolic() else enc(v, v.mod("charset").CharacterSet.utf8mb4, s)
    v.check("text protocol: the number's text", eq(col.text_encode(x), want))
    v.check("binary protocol: the number's text with its length", eq(col.binary_encode(x), lenstr(want)))


@unit("C05", "results.ResultColumn.text_encode results.ResultColumn.binary_encode results._binary_encode_double results._binary_encode_float",
      assumes=["str(float) reads back as the same float (CPython)", "IEEE 754 encoding by struct (CPython)"])
def float_columns(v):
    typ = v.pick("type", ["FLOAT", "DOUBLE"])
    col = column(v, typ)
    if symbolic():
        x = shadow.SFloat(z3.Int(v.fresh_name("float")))
        v.abstract = True
        text = col.text_encode(x)
        v.check("text protocol: the float's text", eq(text, sym.encode(x._str(), "utf8")))
        f, g = (shadow.F32_BITS, 4) if typ == "FLOAT" else (shadow.F64_BITS, 8)
        got = col.binary_encode(x)
        v.check("binary protocol: the float's IEEE encoding", eq(got, le(sym.wrap(f(x._z3)), g)))
        return
    import struct
    x = struct.unpack("<d", v.bytes("bits", length=8))[0]
    if x != x or abs(x) > 1e38:
        raise Skip()
    if typ == "FLOAT":
        x = struct.unpack("<f", struct.pack("<f", x))[0]
    v.check("text protocol: the float's text", float(col.text_encode(x)) == x)
    v.check("binary protocol: the float's IEEE encoding", eq(col.binary_encode(x), struct.pack("<f" if typ == "FLOAT" else "<d", x)))


@unit("C05 C15", "results.ResultColumn.text_encode results.ResultColumn.binary_encode results._text_encode_str results._binary_encode_str")
def string_columns(v):
    """Text in the column's character set, bytes unchanged"""
    typ = v.pick("type", STRINGS)
    cs = v.charset("column")
    col = column(v, typ, cs)
    if v.choose(2, "bytes?"):
        x = want = v.bytes("value")
    else:
        x = v.text("value")
        want = enc(v, cs, x)
    v.check("text protocol: the value in the column's character set", eq(col.text_encode(x), want))
    v.check("binary protocol: the value in the column's character set with its length", eq(col.binary_encode(x), lenstr(want)))


@unit("C05 C15", "results.ResultColumn.__init__")
def default_charset(v):
    """A column that isn't told otherwise has utf8mb4"""
    v.check("columns are utf8mb4 by default", column(v, "VARCHAR").character_set == v.mod("charset").CharacterSet.utf8mb4)


@unit("C05", "results._text_encode_bit results._binary_encode_bit results._encode_bit", weight=2)
def bit_columns(v):
    """BIT values are big endian byte strings"""
    col = column(v, "BIT")
    if v.choose(2, "bytes?"):
        x = v.bytes("value")
        v.check("text protocol: the bits", eq(col.text_encode(x), x))
        v.check("binary protocol: the bits with their length", eq(col.binary_encode(x), lenstr(x)))
        return
    x = v.int("value", 0, 2 ** 64 - 1)
    got = col.text_encode(x)
    v.check("a BIT value has 1 to 8 bytes", And(length(got) >= 1, length(got) <= 8))
    value = sym.int_from_bytes(got, "big") if symbolic() else int.from_bytes(got, "big")
    v.check("text protocol: the integer, big endian", eq(value, x))
    v.check("binary protocol: the same with its length", eq(col.binary_encode(x), lenstr(got)))


def date_of(v):
    y, mo, d = v.int("year", 1, 9999), v.int("month", 1, 12), v.int("day", 1, 31)
    if symbolic():
        return shadow.SDate(y, mo, d), (y, mo, d)
    try:
        return datetime.date(y, mo, d), (y, mo, d)
    except ValueError:
        raise Skip() from None


def datetime_of(v, aware=False):
    _, (y, mo, d) = date_of(v)
    h, mi, s = v.int("hour", 0, 23), v.int("minute", 0, 59), v.int("second", 0, 59)
    us = v.int("microsecond", 0, 999999) if v.choose(2, "fraction?") else 0
    tz = datetime.timezone.utc if aware else None
    f = (y, mo, d, h, mi, s, us)
    return (shadow.SDatetime if symbolic() else datetime.datetime)(*f, tzinfo=tz), f


def ymd(f):
    return cat(digits(f[0], 4), b"-", digits(f[1], 2), b"-", digits(f[2], 2))


def fraction(us):
    if us == 0:
        return b""
    return cat(b".", digits(us, 6))


@unit("C05", "results._binary_encode_date results._text_encode_str")
def date_columns(v):
    col = column(v, "DATE")
    x, f = date_of(v)
    v.check("text protocol: YYYY-MM-DD", eq(col.text_encode(x), ymd(f)))
    v.check("binary protocol: year, month, day", eq(col.binary_encode(x), cat(b"\4", le(f[0], 2), le(f[1], 1), le(f[2], 1))))


@unit("C05", "results._binary_encode_date results._text_encode_datetime")
def datetime_columns(v):
    """The UTC offset isn't part of a MySQL value; a fraction of zero may be left out"""
    col = column(v, v.pick("type", ["DATETIME", "TIMESTAMP"]))
    x, f = datetime_of(v, aware=bool(v.choose(2, "aware?")))
    time = cat(digits(f[3], 2), b":", digits(f[4], 2), b":", digits(f[5], 2), fraction(f[6]))
    v.check("text protocol: YYYY-MM-DD hh:mm:ss[.ffffff]", eq(col.text_encode(x), cat(ymd(f), b" ", time)))
    day = cat(le(f[0], 2), le(f[1], 1), le(f[2], 1))
    hms = cat(le(f[3], 1), le(f[4], 1), le(f[5], 1))
    got = col.binary_encode(x)
    full = cat(b"\x0b", day, hms, le(f[6], 4))
    seconds, days = cat(b"\7", day, hms), cat(b"\4", day)
    v.check("binary protocol: all the fields that aren't zero", Or(
        eq(got, full), And(eq(f[6], 0), eq(got, seconds)), And(eq(f[6], 0), eq(f[3], 0), eq(f[4], 0), eq(f[5], 0), eq(got, days))))


@unit("C05", "results._binary_encode_date")
def date_in_datetime_columns(v):
    """A date in a DATETIME column is midnight"""
    col = column(v, v.pick("type", ["DATETIME", "TIMESTAMP"]))
    x, f = date_of(v)
    day = cat(le(f[0], 2), le(f[1], 1), le(f[2], 1))
    got = col.binary_encode(x)
    v.check("binary protocol: midnight", Or(eq(got, cat(b"\4", day)), eq(got, cat(b"\7", day, bytes(3)))))


@unit("C05", "results._binary_encode_timedelta results._text_encode_timedelta", weight=3, budget=150)
def time_columns(v):
    """Durations of either sign and of any size that Python has"""
    col = column(v, "TIME")
    d, sec = v.int("days", -999999999, 999999999), v.int("seconds", 0, 86399)
    us = v.int("microseconds", 0, 999999) if v.choose(2, "fraction?") else 0
    x = shadow.STimedelta(d, sec, us) if symbolic() else datetime.timedelta(d, sec, us)
    negative = bool(d < 0)
    y = abs(x)
    days, sec, us = y.days, y.seconds, y.microseconds
    h, mi, s = v.int("h", 0, 23), v.int("mi", 0, 59), v.int("s", 0, 59)
    if symbolic():
        v.assume(eq(h * 3600 + mi * 60 + s, sec))
        v.check("lemma: hours, minutes and seconds of a day are unique", And(
            eq(sec // 3600, h), eq(sec % 3600, mi * 60 + s), eq(sec // 60, h * 60 + mi), eq(sec % 60, s)), aux=True)
    else:
        h, mi, s = sec // 3600, sec // 60 % 60, sec % 60
    zero = And(eq(days, 0), eq(us, 0), eq(sec, 0))
    got = col.text_encode(x)
    hours = days * 24 + h
    hh = digits(hours, 2) if hours < 100 else dec(hours)
    v.check("text protocol: [-]hh:mm:ss[.ffffff]", eq(got, cat(b"-" if negative else b"", hh, b":", digits(mi, 2), b":", digits(s, 2), fraction(us))))
    got = col.binary_encode(x)
    head = cat(b"\1" if negative else b"\0", le(days, 4), le(h, 1), le(mi, 1), le(s, 1))
    v.check("binary protocol: sign, days, hours, minutes, seconds and microseconds", Or(
        eq(got, cat(b"\x0c", head, le(us, 4))), And(eq(us, 0), eq(got, cat(b"\x08", head))), And(zero, eq(got, b"\0"))))


@unit("C05", "results.infer_type")
def inference(v):
    """Bare names: the type of a column whose first value is this one can hold every value of the Python type"""
    m, t = v.mod("results"), v.mod("types").ColumnType
    k = v.choose(9, "kind")
    if k == 0:
        x, want = v.bool("value"), [t.TINY, t.BOOL]
    elif k == 1:
        x, want = v.int("value"), [t.LONGLONG]
    elif k == 2:
        x, want = v.text("value"), [t.STRING, t.VARCHAR, t.VAR_STRING]
    elif k == 3:
        x, want = v.bytes("value"), [t.BLOB, t.LONG_BLOB]
    elif k == 4:
        x, want = shadow.SFloat(z3.Int("f")) if symbolic() else 1.5, [t.DOUBLE]
    elif k == 5:
        x, want = datetime_of(v)[0], [t.DATETIME, t.TIMESTAMP]
    elif k == 6:
        x, want = date_of(v)[0], [t.DATE]
    elif k == 7:
        d = v.int("days", -100, 100)
        x, want = shadow.STimedelta(d, 0, 0) if symbolic() else datetime.timedelta(d), [t.TIME]
    else:
        x, want = Num("x"), [t.VARCHAR, t.STRING, t.VAR_STRING]
    v.check("the inferred type holds the value", m.infer_type(x) in want)


# --- NULL bitmap

@unit("C05 C06", "results.NullBitmap.new results.NullBitmap.flip results.NullBitmap.is_flipped results.NullBitmap.from_buffer results.NullBitmap.__bytes__",
      weight=2)
def null_bitmap(v):
    """Bit i of the bitmap is bit (i + offset) % 8 of byte (i + offset) // 8; flip changes no other"""
    m = v.mod("results")
    off = v.pick("offset", [0, 2])
    n = v.int("n", 1, 70000)
    size = (n + 7 + off) // 8
    fresh = m.NullBitmap.new(n, off)
    b0 = sym.bytes_of(fresh) if symbolic() else bytes(fresh)
    v.check("a new bitmap has a bit per position", eq(length(b0), size))
    j = v.int("j", 0)
    v.assume(j < size)
    v.check("a new bitmap is empty", eq(at(b0, j), 0))
    data = v.bytes("bits", length=size)
    after = v.bytes("after", maxlen=100)
    from dv.spec import reader, rest
    r = reader(cat(data, after))
    b = m.NullBitmap.from_buffer(r, n, off)
    v.check("the bitmap is what precedes the rest of the packet", eq(rest(r), after))
    v.check("the bitmap is as received", eq(sym.bytes_of(b) if symbolic() else bytes(b), data))
    bit = v.choose(8, "bit")
    q = v.int("byte", 0)
    i = q * 8 + bit - off
    v.assume(And(i >= 0, i < n))
    old = at(data, q)
    was = (old // (1 << bit)) % 2
    got = b.is_flipped(i)
    v.check("a bit is set iff it is set in its byte", eq(bool(got), bool(was == 1)))
    if not got:
        b.flip(i)
        new = sym.bytes_of(b) if symbolic() else bytes(b)
        v.check("flip sets the bit", eq(at(new, q), old + (1 << bit)))
        v.assume(Not(eq(j, q)))
        v.check("flip changes no other byte", And(eq(length(new), size), eq(at(new, j), at(data, j))))
        v.check("a flipped bit is flipped", bool(b.is_flipped(i)))


@unit("C07", "results.NullBitmap.from_buffer", internal=True)
def null_bitmap_size(v):
    """However many positions a packet claims, the bitmap read from it is no longer than what it holds"""
    from dv.spec import reader
    m = v.mod("results")
    off = v.pick("offset", [0, 2])
    n = v.int("n", 0, (1 << 64) - 1) if symbolic() else v.int("n", 0, 1 << 24)
    data = v.bytes("packet", maxlen=None if symbolic() else 100)
    out = []
    raises(lambda: out.append(m.NullBitmap.from_buffer(reader(data), n, off)), Exception)
    if out:
        b = sym.bytes_of(out[0]) if symbolic() else bytes(out[0])
        v.check("the bitmap holds no more than the packet", length(b) <= length(data))


# --- rows and inference

class Row:
    """The i-th row of the source"""

    def __init__(self, v, i):
        self.v, self.i = v, i

    def __getitem__(self, j):
        return None if null_at(self.i, j) else Value(self.i, j)


class Value:
    def __init__(self, i, j):
        self.i, self.j = i, j


class TypeOf:
    """The type inferred from a value"""

    def __init__(self, value):
        self.value = value


def null_at(i, j):
    return fam_bool(f"null_{j}", i)


class Source:
    """Rows the application returned: an iterator with a position"""
    _mutable = True
    row = Row

    def __init__(self, v, n):
        self.v, self.n, self.pos = v, n, 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        if not self.pos < self.n:
            raise StopAsyncIteration
        r = self.row(self.v, self.pos)
        self.pos = self.pos + 1
        return r


def _roles(L):
    """(rows seen so far, columns that are to be inferred, columns)"""
    peeks = [k for k, x in L._loc.items() if isinstance(x, (list, sym.SList)) and (isinstance(x, sym.SList) or not x)]
    left = [k for k, x in L._loc.items() if type(x) is dict]
    cols = [k for k, x in L._loc.items() if type(x) is list and x]
    if not (len(peeks) == len(left) == len(cols) == 1):
        from dv.core import Unsupported
        raise Unsupported(f"which locals are the rows, the open columns and the columns? {peeks} {left} {cols}")
    return peeks[0], left[0], cols[0]


def all_null(c, j, hi):
    i = z3.Int("i")
    f = z3.Function(f"null_{j}", z3.IntSort(), z3.BoolSort())
    c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < term(hi)), f(i)), patterns=[f(i)]))


def _peek_loop(c, it):
    st = c.state
    src, bare, m = st["source"], st["bare"], c.mod("results")

    def havoc(c, L):
        peeks, left, cols = st["roles"] = _roles(L)
        p = c.int("peeked", 0, src.n)
        src.pos = p
        columns, remaining = list(getattr(L, cols)), dict(getattr(L, left))
        st["was"] = {}
        for j, name in bare.items():
            if c.choose(2, "inferred?"):
                first = c.int("first", 0)
                c.assume(first < p)
                c.assume(Not(null_at(first, j)))
                all_null(c, j, first)
                columns[j] = st["was"][j] = m.ResultColumn(name=name, type=TypeOf(Value(first, j)))
                remaining.pop(j)
            else:
                all_null(c, j, p)
        st["p"] = p
        st["open"] = set(remaining)
        return {peeks: sym.SList(term(p), lambda i: Row(c, i)), left: remaining, cols: columns}

    def inv(c, L):
        if "p" not in st:
            yield "no row has been read", eq(src.pos, 0)
            return
        peeks, left, cols = (getattr(L, x) for x in st["roles"])
        tail = peeks.tail
        yield "every row that was read is kept", And(eq(src.pos, st["p"] + len(tail)), *[
            isinstance(r, Row) and eq(r.i, st["p"] + k) for k, r in enumerate(tail)])
        for j, given in enumerate(st["columns"]):
            if j not in bare:
                yield "columns with a type are kept", cols[j] is given
            elif j in left:
                yield "an open column has only had NULLs", And(j in st["open"], cols[j] is given, *[null_at(r.i, j) for r in tail])
            elif j not in st["open"]:
                yield "an inferred column is kept", cols[j] is st["was"][j]
            else:
                yield "a column's type is that of its first value", _first(cols[j], bare[j], j, tail, st["p"])

    def heap(c, L):
        peeks, left, cols = (getattr(L, x) for x in st["roles"])
        return [src, peeks, peeks.tail, left, cols]

    return Invariant(havoc, inv, lambda c, L: src.n - src.pos, heap=heap)


def _first(col, name, j, tail, p):
    x = getattr(col, "type", None)
    if not isinstance(x, TypeOf) or not tail:
        return False
    return And(eq(col.name, name), x.value.j == j, eq(x.value.i, p))


def _again(c, it):
    st = c.state

    def havoc(c, L):
        st["yielded"] = c.int("yielded", 0)
        return {}

    return Invariant(havoc, lambda c, L: [("one row per iteration", eq(st["yielded"], sym.wrap(term(it.k))))],
                     lambda c, L: sym.wrap(it.n() - term(it.k)))


def _others(c, it):
    st = c.state
    src = st["source"]

    def havoc(c, L):
        src.pos = c.int("pos", 0, src.n)
        st["yielded"] = c.int("yielded", 0)
        return {}

    return Invariant(havoc, lambda c, L: [("one row per iteration", eq(st["yielded"], src.pos))], lambda c, L: src.n - src.pos,
                     heap=lambda c, L: [src])


@unit("C05", "results.ensure_result_set results._ensure_result_cols", weight=4,
      loops={"_ensure_result_cols#0": _peek_loop, "_ensure_result_cols.gen_rows#0": _again, "_ensure_result_cols.gen_rows#1": _others},
      bounded="3 columns (any number of rows); any_columns is about any number of columns")
def result_set(v):
    """Every row of the source is returned once and in order; a bare name gets the type of its column's first value"""
    m, t = v.mod("results"), v.mod("types").ColumnType
    nc = v.choose(4, "columns")
    given, bare = [], {}
    for j in range(nc):
        if v.choose(2, "typed?"):
            given.append(m.ResultColumn(name="typed", type=t.VARCHAR))
        else:
            given.append("same name")
            bare[j] = "same name"
    if not symbolic():
        return _concrete_rows(v, m, t, given, bare)
    n = v.int("rows", 0, 2 if v.bounded else None)
    v.abstract = True
    src = Source(v, n)
    v.patch(m, "aiterate", lambda rows: src if rows == "rows" else None)
    v.patch(m, "cooperative_iterate", lambda rows, *a: rows)
    v.patch(m, "infer_type", TypeOf)
    v.state.update(source=src, bare=bare, columns=given, yielded=0)
    rs = run(m.ensure_result_set(("rows", given)))
    v.check("there is a column for each", len(rs.columns) == nc)
    for j, c in enumerate(rs.columns):
        if j not in bare:
            v.check("typed columns are the application's", c is given[j])
            continue
        v.check("names are the application's", eq(c.name, bare[j]))
        if isinstance(c.type, TypeOf):
            x = c.type.value
            v.check("a type is inferred from a value of the column", And(x.j == j, Not(null_at(x.i, j)), x.i < n))
        else:
            v.check("a column is NULL iff it has no value", And(c.type == t.NULL, eq(src.pos, n)))
    if rs.rows == "rows":
        v.check("the rows are the application's", not bare)
        return
    it = rs.rows.__aiter__()
    while True:
        try:
            row = run(it.__anext__())
        except StopAsyncIteration:
            break
        v.check("rows are returned once and in order", And(isinstance(row, Row), eq(row.i, v.state["yielded"])))
        v.state["yielded"] = v.state["yielded"] + 1
    v.check("every row is returned", eq(v.state["yielded"], n))


def _concrete_rows(v, m, t, given, bare):
    rows = [[None if v.choose(2, "null") else v.pick("value", [1, True, "x", 1.5, b"b"]) for _ in given] for _ in range(v.int("rows", 0, 6))]
    kind = v.choose(3, "source")

    async def agen():
        for r in rows:
            yield r

    import asyncio
    src = rows if kind == 0 else (r for r in rows) if kind == 1 else agen()

    async def go():
        rs = await m.ensure_result_set((src, given))
        return rs, [r async for r in m.aiterate(rs.rows)]

    rs, got = asyncio.run(go())
    v.check("rows are returned once and in order", got == rows)
    v.check("there is a column for each", len(rs.columns) == len(given))
    for j, c in enumerate(rs.columns):
        first = next((r[j] for r in rows if r[j] is not None), None)
        if j in bare:
            v.check("a bare name gets the type of its column's first value",
                    c.name == bare[j] and c.type == (t.NULL if first is None else m.infer_type(first)))
        else:
            v.check("typed columns are the application's", c is given[j])


# --- any number of columns: the containers of columns are seen at one arbitrary column, J.  What holds of J holds of every column

class At(sym.Symbolic):
    """A container of which only what it has for column J is known"""
    __slots__ = ("v", "J")
    _mutable = True

    def other(self, name):
        """A column other than J"""
        k = self.v.int(name, 0)
        self.v.assume(Not(k == self.J))
        return k

    def is_J(self, i):
        return bool(sym.wrap(term(i) == term(self.J)))


class Cols(At):
    """A list of columns"""
    __slots__ = ("n", "slot", "own")

    def __init__(self, v, J, n, slot, own=True):
        self.v, self.J, self.n, self.slot, self.own = v, J, n, slot, own

    def _len_term(self):
        return term(self.n)

    def length(self):
        return self.n

    def _get(self, i):
        return self.slot  # what the code asks of each column, it asks of J

    def _sym_iter(self):
        return shadow.SymIter(self, index=self._get)

    def _sym_copy(self):
        return Cols(self.v, self.J, self.n, self.slot)

    def __setitem__(self, i, x):
        self.v.check("the application's columns aren't changed", self.own)
        if self.is_J(i):
            self.slot = x


class Open(At):
    """A dict of columns to names"""
    __slots__ = ("has", "name", "version")

    def __init__(self, v, J, has, name):
        self.v, self.J, self.has, self.name, self.version = v, J, has, name, 0

    def __bool__(self):
        return self.has or bool(self.v.choose(2, "other columns are open"))

    def items(self):
        return Items(self, lambda: self.name)

    def __iter__(self):
        return Items(self, None)

    def pop(self, i, *default):
        if self.is_J(i):
            if not self.has:
                if default:
                    return default[0]
                raise KeyError(i)
            self.has = False
            self.version += 1
            return self.name
        self.version += 1
        return self.v.text("name")

    def __delitem__(self, i):
        self.pop(i)


class Picked(At):
    """A list of columns' numbers"""
    __slots__ = ("has",)

    def __init__(self, v, J, has):
        self.v, self.J, self.has = v, J, has

    def append(self, i):
        if self.is_J(i):
            self.has = self.has + 1

    def _sym_iter(self):
        return Items(self, None)._sym_iter()


class Items(sym.Symbolic):
    """The items of one of these: J's, if it has it, at some position"""
    __slots__ = ("of", "name", "pos", "n", "version")

    def __init__(self, of, name):
        self.of, self.name, self.version = of, name, of.version if isinstance(of, Open) else 0
        self.n = of.v.int("items", 0)
        self.pos = None
        if of.has:
            self.pos = of.v.int("position", 0)
            of.v.assume(self.pos < self.n)

    def _len_term(self):
        return term(self.n)

    def _get(self, k):
        if isinstance(self.of, Open) and self.of.version != self.version:
            raise RuntimeError("dictionary changed size during iteration")
        if self.pos is not None and bool(sym.wrap(term(k) == term(self.pos))):
            i, name = self.of.J, self.name and self.name()
        else:
            i, name = self.of.other("column"), self.name and self.of.v.text("name")
        return i if self.name is None else (i, name)

    def _sym_iter(self):
        return shadow.SymIter(self, index=self._get)

    def past(self, k):
        """Has J's item been seen after k items?"""
        return False if self.pos is None else self.pos < k


class AnyRow(Row):
    def __getitem__(self, j):
        return None if fam_bool("null", self.i, j) else Value(self.i, j)


class AnySource(Source):
    row = AnyRow


def _of(L, kind):
    ks = [k for k, x in L._loc.items() if type(x) is kind]
    if len(ks) != 1:
        from dv.core import Unsupported
        raise Unsupported(f"which local is it? {ks}")
    return ks[0]


def no_value(c, J, hi):
    i = z3.Int("i")
    f = lambda x: term(fam_bool("null", sym.wrap(x), J))
    c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < term(hi)), f(i)), patterns=[f(i)]))


def _typed(v, slot, name, first):
    """A column named `name` of the type of the value in row `first` and column J"""
    x = getattr(slot, "type", None)
    if not isinstance(x, TypeOf):
        return False
    return And(eq(slot.name, name), eq(x.value.j, v.state["J"]), eq(x.value.i, first))


def _columns_peek(c, it):
    st = c.state
    src, J = st["source"], st["J"]

    def havoc(c, L):
        m = c.mod("results")
        peeks = st["peeks"] = [k for k, x in L._loc.items() if type(x) is list and not x or type(x) is sym.SList][0]
        left, cols = _of(L, Open), _of(L, Cols)
        p = st["p"] = c.int("peeked", 0, src.n)
        src.pos = p
        given = getattr(L, cols).slot
        has, slot = getattr(L, left).has, given
        if has and c.choose(2, "J has been inferred"):
            first = c.int("first", 0)
            c.assume(first < p)
            c.assume(Not(fam_bool("null", first, J)))
            no_value(c, J, first)
            has, slot = False, m.ResultColumn(name=given, type=TypeOf(Value(first, J)))
        elif has:
            no_value(c, J, p)
        st["was"] = slot
        st["open"] = has
        return {peeks: sym.SList(term(p), lambda i: AnyRow(c, i)), left: Open(c, J, has, given), cols: Cols(c, J, getattr(L, cols).n, slot, getattr(L, cols).own)}

    def inv(c, L):
        if "p" not in st:
            yield "no row has been read", eq(src.pos, 0)
            return
        peeks, left, cols = getattr(L, st["peeks"]), getattr(L, _of(L, Open)), getattr(L, _of(L, Cols))
        tail = peeks.tail
        yield "every row that was read is kept", And(eq(src.pos, st["p"] + len(tail)), *[
            isinstance(r, Row) and eq(r.i, st["p"] + k) for k, r in enumerate(tail)])
        if not st["open"]:
            yield "a column that isn't open stays as it is", cols.slot is st["was"] and not left.has
        elif left.has:
            yield "an open column has only had NULLs", And(cols.slot is st["was"], *[fam_bool("null", r.i, J) for r in tail])
        else:
            yield "a column's type is that of its first value", And(len(tail) > 0, _typed(c, cols.slot, st["was"], st["p"]))

    return Invariant(havoc, inv, lambda c, L: src.n - src.pos,
                     heap=lambda c, L: [src, getattr(L, st["peeks"]), getattr(L, st["peeks"]).tail, getattr(L, _of(L, Open)), getattr(L, _of(L, Cols))])


def _columns_infer(c, it):
    """for each open column: look at its value in this row"""
    st = c.state
    J, items = st["J"], it.seq

    def value(L):
        """Has J had its turn, and a value?"""
        return And(items.past(sym.wrap(term(it.k))), Not(fam_bool("null", st["p"], J)))

    def havoc(c, L):
        cols, picked = getattr(L, _of(L, Cols)), [k for k, x in L._loc.items() if type(x) is list and not x and k in L.changed][0]
        st["picked"], st["old"] = picked, cols.slot
        d = items.pos is not None and c.choose(2, "J is inferred here")
        slot = c.mod("results").ResultColumn(name=st["was"], type=TypeOf(Value(st["p"], J))) if d else cols.slot
        return {_of(L, Cols): Cols(c, J, cols.n, slot, cols.own), picked: Picked(c, J, 1 if d else 0)}

    def inv(c, L):
        if "picked" not in st:
            return
        cols, picked = getattr(L, _of(L, Cols)), getattr(L, st["picked"])
        if picked.has:
            yield "the type is that of the value, once it has been looked at", And(
                value(L), picked.has == 1, eq(cols.slot.name, st["was"]), _typed(c, cols.slot, st["was"], st["p"]))
        else:
            yield "a column without a value stays as it is", And(Not(value(L)), cols.slot is st["old"])

    return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)),
                     heap=lambda c, L: [getattr(L, _of(L, Cols)), getattr(L, st["picked"])])


def _columns_close(c, it):
    """for each column inferred in this row: it isn't open any more"""
    st = c.state
    J, items = st["J"], it.seq

    def havoc(c, L):
        left = getattr(L, _of(L, Open))
        st["was open"] = left.has
        closed = left.has and items.pos is not None and c.choose(2, "J is closed here")
        return {_of(L, Open): Open(c, J, left.has and not closed, left.name)}

    def inv(c, L):
        left = getattr(L, _of(L, Open))
        if "was open" in st:
            past = items.past(sym.wrap(term(it.k)))
            yield "the inferred columns are closed", And(st["was open"], Not(past)) if left.has else Or(not st["was open"], past)

    return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)), heap=lambda c, L: [getattr(L, _of(L, Open))])


def _columns_null(c, it):
    """for each column still open: its type is NULL"""
    st = c.state
    J, items = st["J"], it.seq

    def havoc(c, L):
        cols = getattr(L, _of(L, Cols))
        st["last"] = cols.slot
        d = items.pos is not None and c.choose(2, "J is NULL")
        return {_of(L, Cols): Cols(c, J, cols.n, c.mod("results").ResultColumn(name=st["was"], type=c.mod("types").ColumnType.NULL) if d else cols.slot,
                                       cols.own)}

    def inv(c, L):
        if "last" in st:
            slot = getattr(L, _of(L, Cols)).slot
            past = items.past(sym.wrap(term(it.k)))
            null = getattr(slot, "type", None)
            yield "the columns without a value are NULL", Not(past) if slot is st["last"] else And(
                past, null == c.mod("types").ColumnType.NULL, eq(slot.name, st["was"]))

    return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)), heap=lambda c, L: [getattr(L, _of(L, Cols))])


@unit("C05", "results._ensure_result_cols", weight=4, internal=True,
      loops={"_ensure_result_cols#0": _columns_peek, "_ensure_result_cols#1": _columns_infer, "_ensure_result_cols#2": _columns_close,
             "_ensure_result_cols#3": _columns_null, "_ensure_result_cols.gen_rows#0": _again, "_ensure_result_cols.gen_rows#1": _others},
      assumes=["what the code does for one arbitrary column it does for all: the containers of columns are seen at that column"])
def any_columns(v):
    """However many columns and rows: a column given by its name gets the type of its first value, NULL without one; a typed column stays"""
    m, t = v.mod("results"), v.mod("types").ColumnType
    if not symbolic():
        bare = {j: "name" for j in range(v.int("columns", 0, 20)) if v.choose(4, "bare?")}
        nc = max(bare, default=-1) + 1
        return _concrete_rows(v, m, t, [bare.get(j) or m.ResultColumn(name="typed", type=t.VARCHAR) for j in range(nc)], bare)
    n, nc = v.int("rows", 0, 2 if v.bounded else None), v.int("columns", 1, 2 if v.bounded else None)
    J = v.int("column", 0)
    v.assume(J < nc)
    v.abstract = True
    bare = v.choose(2, "typed?") == 0
    given = "name" if bare else m.ResultColumn(name="typed", type=t.VARCHAR)
    src = AnySource(v, n)
    v.patch(m, "aiterate", lambda rows: src if rows == "rows" else None)
    v.patch(m, "cooperative_iterate", lambda rows, *a: rows)
    v.patch(m, "infer_type", TypeOf)

    def remaining(it, one):
        (i, name), yes = one(it.item(term(J)))
        v.check("columns are told apart by their position", eq(i, J))
        return Open(v, J, bool(yes), name)

    v.state.update({"source": src, "J": J, "yielded": 0, "comprehension:DictComp": remaining})
    cols = Cols(v, J, nc, given, False)
    rs = run(m._ensure_result_cols("rows", cols))
    v.check("there is a column for each", isinstance(rs.columns, Cols) and eq(rs.columns.n, nc))
    c = rs.columns.slot
    if not bare:
        v.check("typed columns are the application's", c is given)
    elif isinstance(getattr(c, "type", None), TypeOf):
        x = c.type.value
        v.check("a type is that of the column's first value", And(eq(c.name, given), eq(x.j, J), Not(fam_bool("null", x.i, J)), x.i < n))
        i = v.int("earlier row", 0)
        if i < x.i:
            v.check("rows before it have NULL there", fam_bool("null", i, J))
    else:
        v.check("a column is NULL iff it has no value", And(c.type == t.NULL, eq(c.name, given), eq(src.pos, n)))
        i = v.int("any row", 0)
        if i < n:
            v.check("all rows have NULL there", fam_bool("null", i, J))
    if rs.rows == "rows":
        v.check("the rows are the application's", not bare)
        return
    it = rs.rows.__aiter__()
    while True:
        try:
            row = run(it.__anext__())
        except StopAsyncIteration:
            break
        v.check("rows are returned once and in order", And(isinstance(row, Row), eq(row.i, v.state["yielded"])))
        v.state["yielded"] = v.state["yielded"] + 1
    v.check("every row is returned", eq(v.state["yielded"], n))


@unit("C05", "results.ensure_result_set", bounded="sample objects")
def result_kinds(v):
    """None is a result without columns, a result set is taken as it is, and anything else is an error"""
    m, e = v.mod("results"), v.mod("errors")
    rs = run(m.ensure_result_set(None))
    v.check("no result: no columns and no rows", And(not list(rs.columns), not list(rs.rows)))
    x = m.ResultSet(rows=v.pick("rows", [[], [(1,)]]), columns=[])
    v.check("a result set is taken as it is", run(m.ensure_result_set(x)) is x)
    v.check("other tuples are an error", raises(lambda: run(m.ensure_result_set((1, 2, 3))), e.MysqlError) is not None)
    v.check("other objects are an error", raises(lambda: run(m.ensure_result_set(object())), e.MysqlError) is not None)


# --- row iterators (utils)

def _items(c, it):
    """One item of the source is passed on per iteration"""
    st = c.state

    def havoc(c, L):
        if isinstance(it, sym.Symbolic):
            pass
        st["yielded"] = c.int("yielded", 0)
        src = st["source"]
        if src is not None:
            src.pos = c.int("pos", 0, src.n)
        new = {}
        for k, x in L._loc.items():
            if type(x) is int and k in L.changed:
                new[k] = c.int(k, 0)
        return new

    def inv(c, L):
        src = st["source"]
        k = src.pos if src is not None else sym.wrap(term(it.k))
        yield "one item per iteration", eq(st["yielded"], k)

    return Invariant(havoc, inv, lambda c, L: (st["source"].n - st["source"].pos) if st["source"] is not None else sym.wrap(it.n() - term(it.k)),
                     heap=lambda c, L: [st["source"]])


@unit("C05 C12", "utils.aiterate utils.cooperative_iterate", internal=True,
      loops={"aiterate#0": _items, "aiterate#1": _items, "cooperative_iterate#0": _items})
def row_iterators(v):
    """Iterating in a cooperative way passes every item on, once and in order"""
    u = v.mod("utils")
    which = v.choose(3, "which")
    if not symbolic():
        import asyncio
        xs = list(range(v.int("n", 0, 30)))

        async def agen():
            for x in xs:
                yield x

        async def go():
            src = u.cooperative_iterate(agen(), v.int("batch", 1, 7)) if which == 0 else u.aiterate(agen() if which == 1 else xs)
            return [x async for x in src]

        v.check("items are passed on once and in order", asyncio.run(go()) == xs)
        return
    n = v.int("rows", 0, 2 if v.bounded else None)
    v.abstract = True
    src = Source(v, n) if which != 2 else None
    v.state.update(source=src, yielded=0, slept=0)

    async def sleep(t=0, *a):
        v.check("the loop is given back for no time", t == 0)

    v.state["stub:asyncio.sleep"] = sleep
    it = (u.cooperative_iterate(src) if which == 0 else u.aiterate(src if which == 1 else sym.SList(term(n), lambda i: Row(v, i)))).__aiter__()
    while True:
        try:
            row = run(it.__anext__())
        except StopAsyncIteration:
            break
        v.check("items are passed on once and in order", And(isinstance(row, Row), eq(row.i, v.state["yielded"])))
        v.state["yielded"] = v.state["yielded"] + 1
    v.check("every item is passed on", eq(v.state["yielded"], n))


def _turns(c, it):
    """Between two turns of the event loop at most `batch` items are passed on"""
    st = c.state
    B = st["batch"]

    def since(k):
        # after k items, of which every B-th is preceded by a turn
        return sym.wrap(sym.z3.If(term(k) <= 0, 0, (term(k) - 1) % B + 1))

    def havoc(c, L):
        src = st["source"]
        src.pos = c.int("pos", 0, src.n)
        st["since"] = since(src.pos)
        st["ints"] = {k: x for k, x in L._loc.items() if type(x) is int and k in L.changed}
        return {k: sym.wrap(term(src.pos) + x) for k, x in st["ints"].items()}

    def inv(c, L):
        k = st["source"].pos
        yield "the event loop had its turns", eq(st["since"], since(k))
        for n, x in st.get("ints", {}).items():
            yield f"{n} counts", eq(getattr(L, n), k + x)

    return Invariant(havoc, inv, lambda c, L: st["source"].n - st["source"].pos, heap=lambda c, L: [st["source"]])


@unit("C12", "utils.cooperative_iterate", internal=True, loops={"*": _turns})
def cooperative(v):
    """However long the source: after a bounded number of items the event loop gets its turn"""
    import asyncio
    import inspect
    u = v.mod("utils")
    B = inspect.signature(u.cooperative_iterate).parameters["batch_size"].default
    v.check("the number of items per turn is fixed", type(B) is int and 1 <= B <= 100_000)
    if v.bounded or not symbolic():
        B, n = 3, v.pick("items", [0, 1, 2, 3, 4, 5, 6, 7, 13])
        st, real = {"since": 0}, asyncio.sleep

        async def agen():
            for i in range(n):
                yield i

        async def slept(t=0, *a):
            st["since"] = 0
            v.check("the loop is given back for no time", t == 0)

        async def go():
            async for _ in u.cooperative_iterate(agen(), B):
                st["since"] += 1
                v.check("the event loop gets its turn", st["since"] <= 2 * B)
        if symbolic():
            v.state["stub:asyncio.sleep"] = slept
            run(go())
            return
        try:
            asyncio.sleep = slept
            run(go())
        finally:
            asyncio.sleep = real
        return
    src = Source(v, v.int("rows", 0))
    v.abstract = True
    v.state.update(source=src, batch=B, since=0)

    async def sleep(t=0, *a):
        v.check("the loop is given back for no time", t == 0)
        v.state["since"] = 0
    v.state["stub:asyncio.sleep"] = sleep
    it = u.cooperative_iterate(src).__aiter__()
    while True:
        try:
            run(it.__anext__())
        except StopAsyncIteration:
            break
        v.state["since"] = v.state["since"] + 1
        v.check("the event loop gets its turn", v.state["since"] <= 2 * B)
