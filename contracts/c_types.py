"""types.py: the encodings of integers and strings of the protocol, and their readers"""
import struct

from dv import shadow, sym
from dv.core import term, unit
from dv.spec import And, Not, Or, at, cat, eq, le, length, lenenc, lenstr, les, nulstr, part, reader, rest, raises, symbolic, zeros

WIDTHS = [1, 2, 3, 4, 6, 8]


@unit("C03 C04 C05 C07", "types.uint_1 types.uint_2 types.uint_3 types.uint_4 types.uint_6 types.uint_8")
def encode_uint(v):
    m = v.mod("types")
    w = v.pick("width", WIDTHS)
    x = v.int("x", 0, 256 ** w - 1)
    v.check("an unsigned integer is encoded in little endian", eq(getattr(m, f"uint_{w}")(x), le(x, w)))


@unit("C03 C04 C05 C07", "types.uint_len")
def encode_uint_len(v):
    m = v.mod("types")
    x = v.int("x", 0, 2 ** 64 - 1)
    v.check("a length encoded integer has the shortest form", eq(m.uint_len(x), lenenc(x)))


@unit("C03 C05 C07", "types.str_len types.str_fixed types.str_null types.str_rest")
def encode_str(v):
    m = v.mod("types")
    s = v.bytes("s", maxlen=2 ** 63)
    v.check("str_len: length, then the bytes", eq(m.str_len(s), lenstr(s)))
    v.check("str_fixed: the bytes", eq(m.str_fixed(length(s), s), s))
    v.check("str_null: the bytes and a NUL", eq(m.str_null(s), nulstr(s)))
    v.check("str_rest: the bytes", eq(m.str_rest(s), s))


@unit("C06 C07 C17", "types.read_uint_1 types.read_uint_2 types.read_uint_3 types.read_uint_4 types.read_uint_6 types.read_uint_8")
def read_uint(v):
    m = v.mod("types")
    w = v.pick("width", WIDTHS)
    x = v.int("x", 0, 256 ** w - 1)
    before, after = v.bytes("before"), v.bytes("after")
    r = reader(cat(before, le(x, w), after), length(before))
    v.check("an unsigned integer is read as it was encoded", eq(getattr(m, f"read_uint_{w}")(r), x))
    v.check("the rest is left", eq(rest(r), after))


@unit("C06 C17", "types.read_int_1 types.read_int_2 types.read_int_4 types.read_int_8")
def read_int(v):
    m = v.mod("types")
    w = v.pick("width", [1, 2, 4, 8])
    x = v.int("x", -(256 ** w) // 2, 256 ** w // 2 - 1)
    after = v.bytes("after")
    r = reader(cat(les(x, w), after))
    v.check("a signed integer is read as two's complement", eq(getattr(m, f"read_int_{w}")(r), x))
    v.check("the rest is left", eq(rest(r), after))


@unit("C06 C07 C17", "types.read_uint_len")
def read_uint_len(v):
    m = v.mod("types")
    x = v.int("x", 0, 2 ** 64 - 1)
    after = v.bytes("after")
    form = v.pick("form", [1, 2, 3, 8])  # a client may use a longer form than necessary
    v.assume(x < {1: 251, 2: 2 ** 16, 3: 2 ** 24, 8: 2 ** 64}[form])
    data = cat({1: b"", 2: b"\xfc", 3: b"\xfd", 8: b"\xfe"}[form], le(x, form))
    r = reader(cat(data, after))
    v.check("a length encoded integer is read as it was encoded", eq(m.read_uint_len(r), x))
    v.check("the rest is left", eq(rest(r), after))


@unit("C06 C07 C15 C17", "types.read_str_len types.read_str_fixed types.read_str_null types.read_str_rest")
def read_str(v):
    m = v.mod("types")
    before, after = v.bytes("before"), v.bytes("after")
    k = v.pick("kind", ["len", "fixed", "null", "rest"])
    s = v.bytes("s", maxlen=2 ** 63, nonul=k == "null")
    p = length(before)
    if k == "len":
        r = reader(cat(before, lenstr(s), after), p)
        got = m.read_str_len(r)
    elif k == "fixed":
        r = reader(cat(before, s, after), p)
        got = m.read_str_fixed(r, length(s))
    elif k == "null":
        r = reader(cat(before, nulstr(s), after), p)
        got = m.read_str_null(r)
    else:
        r = reader(cat(before, s), p)
        got = m.read_str_rest(r)
        after = b""
    v.check(f"read_str_{k}: the string is read", eq(got, s))
    v.check(f"read_str_{k}: the rest is left", eq(rest(r), after))


@unit("C07", "types.read_str_fixed types.read_str_null types.read_uint_1 types.read_uint_2 types.read_uint_4 types.read_uint_8")
def truncated(v):
    """Too short packets are an error, whatever they contain"""
    m = v.mod("types")
    d = v.bytes("data", maxlen=300)
    k = v.pick("kind", ["fixed", "null", "uint_1", "uint_2", "uint_3", "uint_4", "uint_6", "uint_8"])
    r = reader(d)
    if k == "fixed":
        n = v.int("n", 0, 2 ** 64 - 1)
        v.assume(n > length(d))
        e = raises(lambda: m.read_str_fixed(r, n), Exception)
    elif k == "null":
        v.assume(Not(_has_nul(v, d)))
        e = raises(lambda: m.read_str_null(r), Exception)
    else:
        v.assume(length(d) < int(k[5:]))
        e = raises(lambda: getattr(m, "read_" + k)(r), Exception)
    v.check("a truncated packet raises an exception", e is not None)


def _has_nul(v, d):
    if isinstance(d, bytes):
        return 0 in d
    return d.find(b"\0") >= 0


@unit("C06 C07 C17", "types.peek")
def peek(v):
    m = v.mod("types")
    before, d = v.bytes("before"), v.bytes("data")
    r = reader(cat(before, d), length(before))
    n = v.int("n", 0, 20)
    got = m.peek(r, n)
    v.check("peek returns the next bytes", Or(And(length(d) >= n, eq(got, part(d, 0, n) if length(d) >= n else d)),
                                              And(length(d) < n, eq(got, d))))
    v.check("peek reads nothing", eq(rest(r), d))


@unit("C06 C17", "types.read_float types.read_double")
def read_floats(v):
    """The float that has these bits; the rest is left"""
    m = v.mod("types")
    w = v.pick("width", [4, 8])
    read = m.read_float if w == 4 else m.read_double
    after = v.bytes("after")
    b = v.int("bits", 0, 256 ** w - 1)
    r = reader(cat(le(b, w), after))
    got = read(r)
    if symbolic():
        f = shadow.F32_VAL if w == 4 else shadow.F64_VAL
        v.check("the float that has these bits", isinstance(got, shadow.SFloat) and eq(sym.wrap(got._z3), sym.wrap(f(term(b)))))
    else:
        x = struct.unpack("<f" if w == 4 else "<d", b.to_bytes(w, "little"))[0]
        v.check("the float that has these bits", got == x or got != got and x != x)
    v.check("the rest is left", eq(rest(r), after))
