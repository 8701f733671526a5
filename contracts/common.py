"""Shared by the contracts: accumulators of loops, indexed families of values, collations, capabilities"""
import z3

from dv import core, sym
from dv.core import Skip, Unsupported, ctx, term
from dv.shadow import Invariant
from dv.spec import And, Implies, Not, Or, cat, eq, length, symbolic
from dv.sym import SAccum, SBytes, SCharset, SInt, SList, SStr, is_sym

I, B = z3.IntSort(), z3.BoolSort()


def fam_bytes(label, i, nonul=False):
    """The i-th of a family of unknown byte strings"""
    c = ctx()
    at = z3.Function(label + "_at", I, I, I)
    ln = z3.Function(label + "_len", I, I)
    if ("fam", label) not in c.memo:
        c.memo["fam", label] = True
        p, q = z3.Ints("p q")
        c.add(z3.ForAll([p, q], z3.And(at(p, q) >= (1 if nonul else 0), at(p, q) < 256), patterns=[at(p, q)]))
        c.add(z3.ForAll([p], z3.And(ln(p) >= 0, ln(p) < sym.LONGEST), patterns=[ln(p)]))
    t = sym.simp(term(i))
    return SBytes([sym.p_fun(lambda j: at(t, term(j)), ln(t), key=("fam", label, t), nonul=nonul)])


def fam_text(label, i, nonul=False):
    c = ctx()
    at = z3.Function(label + "_at", I, I, I)
    ln = z3.Function(label + "_len", I, I)
    if ("fam", label) not in c.memo:
        c.memo["fam", label] = True
        p, q = z3.Ints("p q")
        c.add(z3.ForAll([p, q], z3.And(at(p, q) >= (1 if nonul else 0), at(p, q) < 0x110000), patterns=[at(p, q)]))
        c.add(z3.ForAll([p], z3.And(ln(p) >= 0, ln(p) < sym.LONGEST), patterns=[ln(p)]))
    t = sym.simp(term(i))
    key = ("fam_text", label, sym.tid(t))
    if key not in c.memo:
        c.memo[key] = SStr([sym.p_fun(lambda j: at(t, term(j)), ln(t), key=("fam", label, t), nonul=nonul)])
    return c.memo[key]


def fam_bool(label, *i):
    return sym.wrap(z3.Function(label, *[I] * len(i), B)(*[sym.simp(term(x)) for x in i]))


def fam_int(label, i, lo=None, hi=None):
    c = ctx()
    f = z3.Function(label, I, I)
    if ("fam", label) not in c.memo:
        c.memo["fam", label] = True
        p = z3.Int("p")
        if lo is not None:
            c.add(z3.ForAll([p], z3.And(f(p) >= lo, f(p) <= hi), patterns=[f(p)]))
    return sym.wrap(f(sym.simp(term(i))))


def empty_list(L, *hints):
    """The local that accumulates: a list that is empty when the loop begins"""
    for h in hints:
        if L.has(h) and isinstance(getattr(L, h), list) and not getattr(L, h):
            return h
    names = [k for k, x in L._loc.items() if isinstance(x, list) and not x]
    if len(names) != 1:
        raise Unsupported(f"which local accumulates? {names}")
    return names[0]


def appending(label, item, hints=(), state=None):
    """Invariant of a loop that appends bytes: in the k-th iteration, the bytes item(c, L, k)"""
    def make(c, it):
        st = c.state
        key = "acc:" + label

        def havoc(c, L):
            name = empty_list(L, *hints)
            a = SAccum(c.bytes(label + "_so_far"))
            st[key] = (name, a.total)
            st["it:" + label] = it
            return {name: a}

        def inv(c, L):
            if key not in st:
                return
            name, before = st[key]
            acc = getattr(L, name)
            if acc.total is before:
                return
            yield f"the next {label} is appended", eq(acc.total, cat(before, item(c, L, it.k - 1)))

        return Invariant(havoc, inv, lambda c, L: sym.wrap(it.n() - term(it.k)), heap=lambda c, L: [getattr(L, st[key][0])])
    return make


# --- character sets

WIDE = ("utf16", "utf32", "ucs2", "utf16le", "utf-16", "utf-32")


def enc(v, charset, s):
    """Representable text in a character set that clients may use"""
    if symbolic():
        return charset.encode(s)
    if any(w in charset.codec.replace("_", "-").lower() for w in ("utf16", "utf-16", "utf32", "utf-32", "ucs")):
        raise Skip()
    try:
        b = s.encode(charset.codec)
        if b.decode(charset.codec) != s or b"\0" in b and "\0" not in s:
            raise Skip()
        return b
    except (UnicodeError, LookupError):
        raise Skip() from None


COLL = z3.Function("charset_of_collation", I, I)
COLL_OK = z3.Function("is_collation", I, B)


class FakeCollation:
    """Collation: numbers that are collations have a character set (c_charset checks the table)"""

    def __init__(self, v):
        self.v = v

    def __call__(self, x):
        t = term(x)
        if not ctx().branch(COLL_OK(t)):
            raise ValueError("not a valid Collation")
        return FakeMember(self.v, t)


class FakeMember:
    def __init__(self, v, t):
        self.v, self.t = v, t

    @property
    def charset(self):
        c = COLL(self.t)
        self.v.add(z3.And(c >= 1, c < 256))
        return SCharset(c, "charset", self.v.mod("charset").CharacterSet)


def collation(v, m, name, hi=255):
    """(number, its character set); the packets module decodes collations by the contract"""
    x = v.int(name, 0, hi)
    if symbolic():
        if not isinstance(m.Collation, FakeCollation):
            v.patch(m, "Collation", FakeCollation(v))
        v.assume(sym.wrap(COLL_OK(term(x))))
        return x, FakeMember(v, term(x)).charset
    try:
        return x, v.mod("charset").Collation(x).charset
    except (ValueError, KeyError):
        raise Skip() from None


def cap(caps, Cap, name):
    """Is a capability set?"""
    if symbolic():
        return sym.SFlags._contains(caps, Cap[name]) if isinstance(caps, sym.SFlags) else Cap[name] in caps
    return Cap[name] in caps


# --- length encoded integers by their contract (c_types)

LENENC_AT = z3.Function("lenenc_at", I, I, I)
LENENC_LEN = z3.Function("lenenc_len", I, I)


def abstract_lengths(v):
    """types.uint_len and read_uint_len as an abstract pair: what one writes the other reads.  spec.lenenc is the same function"""
    if not symbolic() or v.bounded:
        return
    t = v.mod("types")

    def uint_len(x):
        if not is_sym(x):
            return real(x)
        n = term(x)
        v.check("a length encoded integer is in range", And(sym.wrap(n >= 0), sym.wrap(n < 1 << 64)))
        n = sym.simp(n)
        k = LENENC_LEN(n)
        if ("lenenc", sym.tid(n)) not in v.memo:
            v.memo["lenenc", sym.tid(n)] = True
            v.add(z3.And(k >= 1, k <= 9, z3.Implies(n < 251, z3.And(k == 1, LENENC_AT(n, 0) == n))))
            j = z3.Int("j")
            v.add(z3.ForAll([j], z3.And(LENENC_AT(n, j) >= 0, LENENC_AT(n, j) < 256), patterns=[LENENC_AT(n, j)]))
        return SBytes([sym.p_fun(lambda j: LENENC_AT(n, term(j)), k, key=("lenenc", n), tok=("lenenc", n))])

    def read_uint_len(r):
        rest = r.remaining()
        rest = rest if isinstance(rest, SBytes) else SBytes.of(rest)
        if rest.pieces and rest.pieces[0].tok and rest.pieces[0].tok[0] == "lenenc":
            r.read(sym.wrap(term(rest.pieces[0].len)))
            return sym.wrap(rest.pieces[0].tok[1])
        return real_read(r)

    real, real_read = t.uint_len, t.read_uint_len
    v.state["lenenc"] = uint_len
    from dv.shadow import replace_everywhere
    replace_everywhere(v, real, uint_len)
    replace_everywhere(v, real_read, read_uint_len)
