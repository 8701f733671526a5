"""Symbolic values: exact Python integers, byte strings and text as ropes, flags, enum members, byte readers.

Every operation either has the semantics CPython gives it on concrete values or raises Unsupported.
"""
from __future__ import annotations

import enum
from typing import Any, Callable, Dict, Iterator, List, Optional, Sequence, Tuple

import z3

from dv.core import Unsupported, ctx, term


class Symbolic:
    """Marker. No hash: a symbolic value must not end up as a key of a concrete container"""
    __slots__ = ()

    def __hash__(self) -> int:
        raise Unsupported(f"hash of {type(self).__name__}")

    def __repr__(self) -> str:
        return f"<{type(self).__name__}>"

    def __str__(self) -> str:
        raise Unsupported(f"str() of {type(self).__name__}")

    def __format__(self, spec: str) -> str:
        raise Unsupported(f"format() of {type(self).__name__}")

    def __eq__(self, other: Any) -> Any:
        raise Unsupported(f"== of {type(self).__name__}")

    def __getattr__(self, name: str) -> Any:
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{type(self).__name__}.{name}")


def is_sym(x: Any) -> bool:
    return isinstance(x, Symbolic)


Int = z3.IntVal


def simp(t: Any) -> Any:
    return z3.simplify(t) if z3.is_expr(t) else t


def num(t: Any) -> Optional[int]:
    """The value of a term that simplifies to a number"""
    if isinstance(t, Symbolic):
        t = term(t)
    elif isinstance(t, int):
        return int(t)
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def tid(t: Any) -> int:
    """A number that identifies a term on this path (the term stays alive, so the number isn't used again)"""
    t = z3.simplify(term(t))
    ctx().memo.setdefault("keep", []).append(t)
    return t.get_id()


def known(t: Any) -> Optional[int]:
    """The only value a term can have on this path, if that is easily seen"""
    n = num(t)
    if n is not None:
        return n
    c = ctx()
    t = term(t)
    if c.sat() != z3.sat:
        return None
    n = c.solver.model().eval(t, model_completion=True)
    if not z3.is_int_value(n):
        return None
    return n.as_long() if c.entails(t == n) else None


def wrap(t: Any) -> Any:
    if isinstance(t, (int, bool)):
        return t
    if z3.is_bool(t):
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return SBool(t)
    n = num(t)
    return n if n is not None else SInt(z3.simplify(t))


def concretise_int(t: Any, what: str, limit: int = 300) -> int:
    """Fork over the possible values of a term"""
    n = num(t)
    if n is not None:
        return n
    c = ctx()
    t = term(t)
    lo = known(t)
    if lo is not None:
        return lo
    vals = []
    solver = c.solver
    solver.push()
    try:
        while True:
            if c.sat() != z3.sat:
                break
            v = solver.model().eval(t, model_completion=True).as_long()
            vals.append(v)
            solver.add(t != v)
            if len(vals) > limit:
                raise Unsupported(f"{what}: a number with too many possible values")
    finally:
        solver.pop()
    vals.sort()
    i = c.decide(len(vals), lambda k: True)
    solver.add(t == vals[i])
    return vals[i]


# --- booleans

class SBool(Symbolic):
    __slots__ = ("_z3",)

    def __init__(self, t: Any):
        self._z3 = t

    def __bool__(self) -> bool:
        return ctx().branch(self._z3)

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, (bool, SBool)):
            return wrap(self._z3 == term(o))
        if isinstance(o, (int, SInt)):
            return SInt(self._int()) == o
        return False

    def __ne__(self, o: Any) -> Any:
        return Not(self == o)

    __hash__ = Symbolic.__hash__

    def _int(self) -> Any:
        return z3.If(self._z3, Int(1), Int(0))

    def __and__(self, o: Any) -> Any:
        return And(self, o) if isinstance(o, (bool, SBool)) else SInt(self._int()) & o

    __rand__ = __and__

    def __or__(self, o: Any) -> Any:
        return Or(self, o) if isinstance(o, (bool, SBool)) else SInt(self._int()) | o

    __ror__ = __or__

    def __invert__(self) -> Any:
        return ~SInt(self._int())


def _arith(name: str) -> Any:
    def f(self: Any, o: Any) -> Any:
        return getattr(SInt(self._int()), name)(o)
    return f


def truth(x: Any) -> Any:
    """z3 truth value of a value, without forking"""
    if isinstance(x, SBool):
        return x._z3
    if z3.is_expr(x):
        return x
    if isinstance(x, SInt):
        return x._z3 != 0
    if isinstance(x, SSeq):
        return x._len_term() > 0
    if is_sym(x):
        return z3.BoolVal(bool(x))
    return z3.BoolVal(bool(x))


def And(*xs: Any) -> Any:
    return wrap(z3.And([truth(x) for x in xs]))


def Or(*xs: Any) -> Any:
    return wrap(z3.Or([truth(x) for x in xs]))


def Not(x: Any) -> Any:
    return wrap(z3.Not(truth(x)))


def Implies(a: Any, b: Any) -> Any:
    return wrap(z3.Implies(truth(a), truth(b)))


# --- integers

def _tdiv(a: Any, b: int) -> Any:
    return a / b if b > 0 else None  # z3 Int division by a positive constant floors, as Python does


class SInt(Symbolic):
    __slots__ = ("_z3", "_meta")

    def __init__(self, t: Any, meta: Any = None):
        self._z3 = t
        self._meta = meta

    def __bool__(self) -> bool:
        return ctx().branch(self._z3 != 0)

    def __index__(self) -> int:
        return concretise_int(self._z3, "index", 64)

    def __int__(self) -> int:
        raise Unsupported("int() of a symbolic integer")

    def _o(self, o: Any) -> Any:
        if isinstance(o, SBool):
            return o._int()
        if isinstance(o, SFlags):
            return o._int()
        if isinstance(o, (SInt, SEnum)):
            return o._z3
        if isinstance(o, bool):
            return Int(int(o))
        if isinstance(o, int):
            return Int(int(o))
        return None

    def __eq__(self, o: Any) -> Any:
        t = self._o(o)
        if t is None:
            if isinstance(o, Symbolic) and not isinstance(o, (SSeq,)):
                raise Unsupported(f"int == {type(o).__name__}")
            return False
        return wrap(self._z3 == t)

    def __ne__(self, o: Any) -> Any:
        return Not(self == o)

    __hash__ = Symbolic.__hash__

    def _bin(self, o: Any, f: Callable[[Any, Any], Any]) -> Any:
        t = self._o(o)
        if t is None:
            if isinstance(o, (float, Symbolic)):
                raise Unsupported(f"int arithmetic with {type(o).__name__}")
            return NotImplemented
        return wrap(f(self._z3, t))

    def __lt__(self, o: Any) -> Any: return self._bin(o, lambda a, b: a < b)
    def __le__(self, o: Any) -> Any: return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o: Any) -> Any: return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o: Any) -> Any: return self._bin(o, lambda a, b: a >= b)
    def __add__(self, o: Any) -> Any: return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o: Any) -> Any: return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o: Any) -> Any: return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o: Any) -> Any: return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o: Any) -> Any:
        if isinstance(o, (SSeq, bytes, str, list)):
            return repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self) -> Any: return wrap(-self._z3)
    def __pos__(self) -> Any: return self
    def __abs__(self) -> Any: return wrap(z3.If(self._z3 < 0, -self._z3, self._z3))
    def __invert__(self) -> Any: return wrap(-self._z3 - 1)

    def _divisor(self, o: Any) -> int:
        n = num(o) if isinstance(o, (int, SInt)) else None
        if n is None or n <= 0:
            raise Unsupported("division by something else than a positive constant")
        return n

    def __floordiv__(self, o: Any) -> Any: return wrap(self._z3 / self._divisor(o))
    def __mod__(self, o: Any) -> Any: return wrap(self._z3 % self._divisor(o))
    def __divmod__(self, o: Any) -> Any: return self // o, self % o

    def __lshift__(self, o: Any) -> Any:
        n = num(o) if isinstance(o, (int, SInt)) else None
        if n is None:
            raise Unsupported("shift by a symbolic number")
        return wrap(self._z3 * (1 << n))

    def __rshift__(self, o: Any) -> Any:
        n = num(o) if isinstance(o, (int, SInt)) else None
        if n is None:
            raise Unsupported("shift by a symbolic number")
        return wrap(self._z3 / (1 << n))

    def __rlshift__(self, o: Any) -> Any:
        # constant << self
        k = known_range(self._z3, 0, 64)
        return wrap(_select(self._z3, {i: Int(int(o) << i) for i in k}))

    def __and__(self, o: Any) -> Any: return bitop(self, o, "and")
    def __rand__(self, o: Any) -> Any: return bitop(self, o, "and")
    def __or__(self, o: Any) -> Any: return bitop(self, o, "or")
    def __ror__(self, o: Any) -> Any: return bitop(self, o, "or")
    def __xor__(self, o: Any) -> Any: return bitop(self, o, "xor")
    def __rxor__(self, o: Any) -> Any: return bitop(self, o, "xor")

    def to_bytes(self, length: Any = 1, byteorder: str = "big", *, signed: bool = False) -> Any:
        meta = self._meta
        if is_sym(length) and meta and meta[0] == "xor" and not signed:
            a, b, n = meta[1], meta[2], term(length)
            if ctx().entails(z3.And(a._len_term() == n, b._len_term() == n)):
                return xor_bytes(a, b, simp(n))
        n = concretise_int(length, "to_bytes", 20) if is_sym(length) else length
        return int_to_bytes(self, n, byteorder, signed, OverflowError)

    def bit_length(self) -> Any:
        a = abs(self)
        t = term(a)
        c = ctx()
        key = ("bit_length", tid(t))
        if key not in c.memo:
            if not c.entails(t < 1 << 64):
                raise Unsupported("bit_length of an unbounded integer")
            r = Int(0)
            for i in range(64):
                r = z3.If(t >= (1 << i), Int(i + 1), r)
            c.memo[key] = (r, t)
        return wrap(c.memo[key][0])

    def conjugate(self) -> Any:
        return self

    @property
    def real(self) -> Any:
        return self


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__lt__", "__le__", "__gt__", "__ge__",
           "__lshift__", "__rshift__", "__index__", "__neg__"):
    setattr(SBool, _n, _arith(_n))


def known_range(t: Any, lo: int, hi: int) -> range:
    if not ctx().entails(z3.And(t >= lo, t < hi)):
        raise Unsupported("a bit position without a bound")
    # tighten
    while hi - lo > 1 and ctx().entails(t < (lo + hi + 1) // 2):
        hi = (lo + hi + 1) // 2
    return range(lo, hi)


def _select(t: Any, table: Dict[int, Any]) -> Any:
    items = sorted(table.items())
    r = items[-1][1]
    for k, x in reversed(items[:-1]):
        r = z3.If(t == k, x, r)
    return r


def bit(t: Any, i: int) -> Any:
    return (t / (1 << i)) % 2 == 1


def width_of(t: Any) -> Optional[int]:
    """Number of bits of a non-negative term"""
    c = ctx()
    for w in (1, 8, 16, 24, 32, 48, 64):
        if c.entails(z3.And(t >= 0, t < (1 << w))):
            return w
    return None


def bitop(a: Any, b: Any, op: str) -> Any:
    if isinstance(b, (SFlags,)) or isinstance(a, SFlags):
        return flagop(a, b, op)
    if isinstance(a, SBool):
        a = SInt(a._int())
    if isinstance(b, SBool):
        b = SInt(b._int())
    if not isinstance(b, (int, SInt, SEnum)) or isinstance(b, float):
        raise Unsupported(f"{op} with {type(b).__name__}")
    na, nb = num(term(a)), num(term(b))
    if na is not None and nb is not None:
        return {"and": na & nb, "or": na | nb, "xor": na ^ nb}[op]
    if na is not None:
        a, b, na, nb = b, a, nb, na
    ta, tb = term(a), term(b)
    if op == "xor":
        x = xor_digests(a, b)
        if x is not None:
            return x
    if nb is not None and op == "and" and nb >= 0:
        # a contiguous mask, or single bits
        low = (nb & -nb).bit_length() - 1 if nb else 0
        high = nb.bit_length()
        if nb == 0:
            return 0
        if nb == (1 << high) - (1 << low):
            return wrap((ta / (1 << low)) % (1 << (high - low)) * (1 << low))
        return wrap(z3.Sum([z3.If(bit(ta, i), Int(1 << i), Int(0)) for i in range(high) if nb >> i & 1]))
    if nb == 0:
        return wrap(ta)
    wa, wb = width_of(ta), width_of(tb)
    if wa is None or wb is None:
        raise Unsupported(f"bitwise {op} of unbounded integers")
    if op == "and":
        w = min(wa, wb)
        f = lambda x, y: z3.And(x, y)
    else:
        w = max(wa, wb)
        f = (lambda x, y: z3.Or(x, y)) if op == "or" else (lambda x, y: z3.Xor(x, y))
    return wrap(z3.Sum([z3.If(f(bit(ta, i), bit(tb, i)), Int(1 << i), Int(0)) for i in range(w)]))


def xor_digests(a: Any, b: Any) -> Any:
    """XOR of the integer values of two byte strings of the same length"""
    ma, mb = getattr(a, "_meta", None), getattr(b, "_meta", None)
    if not (ma and mb and ma[0] == mb[0] == "from_bytes" and ma[2] == mb[2]):
        return None
    return SInt(ctx_fresh("xor"), ("xor", ma[1], mb[1], ma[2]))


def ctx_fresh(base: str) -> Any:
    c = ctx()
    return z3.Int(c.fresh_name(base))


# --- flags and enums

class SFlags(Symbolic):
    """An IntFlag value, bit by bit"""
    __slots__ = ("cls", "bits", "rest", "_t")

    def __init__(self, cls: Any, bits: List[Any], t: Any = None):
        self.cls = cls
        self.bits = bits  # z3 Bools, bit 0 first
        self._t = t

    @property
    def __class__(self) -> Any:
        return self.cls

    @staticmethod
    def new(cls: Any, name: str, n: int = 32) -> "SFlags":
        c = ctx()
        x = SFlags(cls, [z3.Bool(c.fresh_name(f"{name}.{i}")) for i in range(n)])
        c.inputs.append((name, "flags", x))
        return x

    @staticmethod
    def of(cls: Any, x: Any) -> "SFlags":
        if isinstance(x, SFlags):
            return SFlags(cls, x.bits, x._t)
        if isinstance(x, int):
            return SFlags(cls, [z3.BoolVal(bool(int(x) >> i & 1)) for i in range(32)])
        t = term(x)
        b = ctx().memo.get(("bits", tid(t)))
        if b is not None:
            return SFlags(cls, list(b[0]), t)
        if not ctx().entails(z3.And(t >= 0, t < 1 << 32)):
            raise Unsupported("flags of an unbounded integer")
        return SFlags(cls, [bit(t, i) for i in range(32)], t)

    def _int(self) -> Any:
        if self._t is None:
            self._t = z3.simplify(z3.Sum([z3.If(b, Int(1 << i), Int(0)) for i, b in enumerate(self.bits)]))
            ctx().memo[("bits", self._t.get_id())] = (self.bits, self._t)
        return self._t

    @property
    def _z3(self) -> Any:
        return self._int()

    def _contains(self, o: Any) -> Any:
        if isinstance(o, SFlags):
            return wrap(z3.And([z3.Implies(x, y) for x, y in zip(o.bits, self.bits)]))
        if not isinstance(o, int):
            raise TypeError("unsupported operand type(s) for 'in'")
        return wrap(z3.And([self.bits[i] for i in range(len(self.bits)) if int(o) >> i & 1]))

    def __bool__(self) -> bool:
        return ctx().branch(z3.Or(self.bits))

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, (int, SInt, SFlags)):
            if isinstance(o, SInt):
                return wrap(self._int() == o._z3)
            p = SFlags.of(self.cls, o)
            return wrap(z3.And([x == y for x, y in zip(self.bits, p.bits)]))
        return False

    def __ne__(self, o: Any) -> Any:
        return Not(self == o)

    __hash__ = Symbolic.__hash__

    def __and__(self, o: Any) -> Any: return flagop(self, o, "and")
    def __rand__(self, o: Any) -> Any: return flagop(self, o, "and")
    def __or__(self, o: Any) -> Any: return flagop(self, o, "or")
    def __ror__(self, o: Any) -> Any: return flagop(self, o, "or")
    def __xor__(self, o: Any) -> Any: return flagop(self, o, "xor")
    def __invert__(self) -> Any: return SFlags(self.cls, [z3.Not(b) for b in self.bits])

    def __rshift__(self, n: Any) -> Any:
        if is_sym(n):
            raise Unsupported("shift of flags by a symbolic number")
        x = SFlags(self.cls, self.bits[n:] + [z3.BoolVal(False)] * n)
        return SInt(x._int())

    def __lshift__(self, n: Any) -> Any: return SInt(self._int()) << n
    def __add__(self, n: Any) -> Any: return SInt(self._int()) + n
    def __radd__(self, n: Any) -> Any: return SInt(self._int()) + n
    def __lt__(self, n: Any) -> Any: return SInt(self._int()) < n
    def __le__(self, n: Any) -> Any: return SInt(self._int()) <= n
    def __gt__(self, n: Any) -> Any: return SInt(self._int()) > n
    def __ge__(self, n: Any) -> Any: return SInt(self._int()) >= n

    @property
    def value(self) -> Any:
        return SInt(self._int())


def flagop(a: Any, b: Any, op: str) -> Any:
    cls = a.cls if isinstance(a, SFlags) else b.cls
    x, y = SFlags.of(cls, a), SFlags.of(cls, b)
    f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op]
    return SFlags(cls, [z3.simplify(f(p, q)) for p, q in zip(x.bits, y.bits)])


class SEnum(Symbolic):
    """A member of an enumeration, by its integer value"""
    __slots__ = ("cls", "_z3")

    def __init__(self, cls: Any, t: Any):
        self.cls = cls
        self._z3 = t

    @property
    def __class__(self) -> Any:
        return self.cls

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, (SEnum, SInt)):
            return wrap(self._z3 == o._z3)
        if isinstance(o, int):
            return wrap(self._z3 == int(o))
        return False

    def __ne__(self, o: Any) -> Any:
        return Not(self == o)

    __hash__ = Symbolic.__hash__

    def __bool__(self) -> bool:
        return ctx().branch(self._z3 != 0)

    def _pick(self) -> Any:
        return self.cls(concretise_int(self._z3, "enum member"))

    @property
    def name(self) -> Any:
        return self._pick().name

    @property
    def value(self) -> Any:
        return SInt(self._z3)

    def __getattr__(self, name: str) -> Any:
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._pick(), name)

    def __index__(self) -> int:
        return int(self._pick())

    def __add__(self, n: Any) -> Any: return SInt(self._z3) + n
    def __and__(self, n: Any) -> Any: return SInt(self._z3) & n
    def __or__(self, n: Any) -> Any: return SInt(self._z3) | n
    def __lt__(self, n: Any) -> Any: return SInt(self._z3) < n
    def __le__(self, n: Any) -> Any: return SInt(self._z3) <= n
    def __gt__(self, n: Any) -> Any: return SInt(self._z3) > n
    def __ge__(self, n: Any) -> Any: return SInt(self._z3) >= n


def make_enum(cls: Any, x: Any) -> Any:
    """cls(x) for a symbolic x"""
    if issubclass(cls, enum.Flag):
        return SFlags.of(cls, x)
    if isinstance(x, SEnum) and x.cls is cls:
        return x
    if not isinstance(x, (SInt, SEnum, SBool)):
        raise Unsupported(f"{cls.__name__}() of {type(x).__name__}")
    t = term(x)
    values = sorted({int(m.value) for m in cls})
    ok = z3.Or([z3.And(t >= a, t <= b) for a, b in ranges(values)])
    if not ctx().branch(ok):
        raise ValueError(f"not a valid {cls.__name__}")
    return SEnum(cls, t)


def ranges(values: Sequence[int]) -> List[Tuple[int, int]]:
    out: List[Tuple[int, int]] = []
    for x in values:
        if out and out[-1][1] == x - 1:
            out[-1] = (out[-1][0], x)
        else:
            out.append((x, x))
    return out


# --- sequences (bytes and text) as ropes

class Piece:
    """len: term or int; at(i): term of element i"""
    __slots__ = ("len", "at", "const", "int", "key", "nonul", "tok")

    def __init__(self, length: Any, at: Callable[[Any], Any], const: Any = None, int_: Any = None, key: Any = None,
                 nonul: bool = False, tok: Any = None):
        self.len = length
        self.at = at
        self.const = const  # bytes or str
        self.int = int_  # (term, width, order): the encoding of an unsigned integer
        self.key = key  # two pieces with the same key are equal
        self.nonul = nonul
        self.tok = tok  # (function, args, offset 0) of the whole of a named sequence


def elem(c: Any) -> int:
    return c if isinstance(c, int) else ord(c)


def p_const(c: Any) -> Piece:
    def at(i: Any) -> Any:
        n = num(i)
        if n is not None:
            return Int(elem(c[n])) if 0 <= n < len(c) else Int(0)
        if len(c) > 4096:
            raise Unsupported("symbolic index into a long constant")
        if len(set(c)) == 1:
            return Int(elem(c[0]))
        return _select(i, {k: Int(elem(x)) for k, x in enumerate(c)})
    return Piece(len(c), at, const=c, key=("c", c))


def p_int(t: Any, width: int, order: str) -> Piece:
    t = z3.simplify(t)

    def at(i: Any) -> Any:
        def byte(k: int) -> Any:
            e = k if order == "little" else width - 1 - k
            if width == 1:
                return t
            return (t / (1 << (8 * e))) % 256 if e < width - 1 else t / (1 << (8 * e))
        n = num(i)
        if n is not None:
            return byte(n) if 0 <= n < width else Int(0)
        return _select(i, {k: byte(k) for k in range(width)})
    return Piece(width, at, int_=(t, width, order), key=("i", t, width, order))


def p_rep(t: Any, n: Any) -> Piece:
    return Piece(n, lambda i: t, key=("r", t, simp(term(n))))


def p_fun(f: Callable[[Any], Any], n: Any, key: Any = None, nonul: bool = False, tok: Any = None) -> Piece:
    return Piece(n, f, key=key, nonul=nonul, tok=tok)


def same_key(a: Piece, b: Piece) -> bool:
    if a.key is None or b.key is None or len(a.key) != len(b.key):
        return False
    for x, y in zip(a.key, b.key):
        if z3.is_expr(x) and z3.is_expr(y):
            if not (x.sort() == y.sort() and z3.is_true(z3.simplify(x == y))):
                return False
        elif z3.is_expr(x) or z3.is_expr(y):
            if z3.is_expr(x):
                x, y = y, x
            if not isinstance(x, int) or isinstance(x, bool) or not z3.is_int(y) or num(y) != x:
                return False
        elif type(x) is not type(y) or x != y:
            return False
    return True


def lt(a: Any, b: Any) -> bool:
    """Fork on a < b"""
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return ctx().branch(term(a) < term(b))


def plus(a: Any, b: Any) -> Any:
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(term(a) + term(b))


def minus(a: Any, b: Any) -> Any:
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    t = simp(term(a) - term(b))
    n = num(t)
    return n if n is not None else t


def sub(p: Piece, lo: Any, n: Any) -> List[Piece]:
    """Elements lo..lo+n of a piece"""
    l0, n0 = num(lo), num(n)
    if n0 == 0:
        return []
    if l0 == 0 and z3.is_true(simp(term(n) == term(p.len))):
        return [p]
    if p.const is not None and l0 is not None and n0 is not None:
        return [p_const(p.const[l0:l0 + n0])]
    if p.int is not None and l0 is not None and n0 is not None:
        t, w, order = p.int
        skip = l0 if order == "little" else w - l0 - n0
        return [p_int((t / (1 << (8 * skip))) % (1 << (8 * n0)), n0, order)]
    key = None
    if p.key is not None:
        if p.key[0] == "s":
            key = ("s", p.key[1], simp(p.key[2] + term(lo)), simp(term(n)))
        elif p.key[0] == "r":
            key = ("r", p.key[1], simp(term(n)))
        else:
            key = ("s", p.key, simp(term(lo)), simp(term(n)))
    f = p.at
    return [Piece(n, lambda i: f(simp(term(lo) + term(i))), key=key, nonul=p.nonul)]


class SSeq(Symbolic):
    """Immutable. Subclasses: SBytes, SStr"""
    __slots__ = ("pieces", "_memo")
    empty: Any = b""
    hi = 256

    def __init__(self, pieces: List[Piece]):
        out: List[Piece] = []
        for p in pieces:
            n = num(p.len)
            if n is not None:
                p.len = n
                if n == 0:
                    continue
            if out and p.const is not None and out[-1].const is not None:
                out[-1] = p_const(out[-1].const + p.const)
            else:
                out.append(p)
        self.pieces = out
        self._memo: Any = None

    # construction
    @classmethod
    def of(cls, x: Any) -> "SSeq":
        if isinstance(x, cls):
            return x
        if isinstance(x, SByteArray) and cls is SBytes:
            return x.rope
        if isinstance(x, (bytes, bytearray, memoryview)) and cls is SBytes:
            return cls([p_const(bytes(x))])
        if isinstance(x, str) and cls is SStr:
            return cls([p_const(x)])
        raise TypeError(f"a {cls.kind} object is required, not {type(x).__name__}")

    def norm(self) -> Any:
        """The concrete value, if there is one"""
        if not self.pieces:
            return self.empty
        if all(p.const is not None for p in self.pieces):
            return self.pieces[0].const
        return self

    @classmethod
    def cat(cls, parts: Sequence[Any]) -> Any:
        ps: List[Piece] = []
        for x in parts:
            ps += cls.of(x).pieces
        return cls(ps).norm()

    # length and elements
    def _len_term(self) -> Any:
        n: Any = 0
        for p in self.pieces:
            n = plus(n, p.len)
        return term(n)

    @property
    def _len(self) -> Any:
        return self._len_term()

    def length(self) -> Any:
        return wrap(self._len_term())

    def __len__(self) -> int:
        raise Unsupported("len() of a symbolic sequence outside of the rewritten code")

    def __bool__(self) -> bool:
        return ctx().branch(self._len_term() > 0)

    def _at(self, i: Any) -> Any:
        """Element i (a term), 0 <= i < len"""
        if len(self.pieces) == 1:
            return self.pieces[0].at(i)
        n = num(i)
        r = None
        start: Any = 0
        chain = []
        for p in self.pieces:
            end = plus(start, p.len)
            if n is not None and isinstance(start, int) and isinstance(end, int):
                if start <= n < end:
                    return p.at(Int(n - start))
                if n < start:
                    break
            else:
                chain.append((end, p, start))
            start = end
        for end, p, st in reversed(chain):
            x = p.at(simp(term(i) - term(st)))
            r = x if r is None else z3.If(term(i) < term(end), x, r)
        return r if r is not None else Int(0)

    # slicing
    def cut(self, n: Any) -> Tuple[Any, Any]:
        """(first n elements, the rest); 0 <= n <= len holds on the path"""
        left: List[Piece] = []
        ps = list(self.pieces)
        while ps:
            if num(n) == 0:
                break
            p = ps[0]
            d = minus(n, p.len)
            if num(d) is not None:
                fits = num(d) >= 0
            else:
                if num(n) is None and not lt(0, n):
                    break
                fits = not lt(d, 0)
            if fits:
                left.append(p)
                ps.pop(0)
                n = d
            else:
                left += sub(p, 0, n)
                ps[0:1] = sub(p, n, minus(p.len, n))
                break
        return type(self)(left), type(self)(ps)

    def _clip(self, i: Any, default: Any) -> Any:
        """Index of a slice, as Python clips it"""
        if i is None:
            return default
        if isinstance(i, (SBool, SEnum, SFlags)):
            i = SInt(i._int() if not isinstance(i, SEnum) else i._z3)
        if isinstance(i, SInt):
            i = i._z3
        elif not isinstance(i, int):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        n = self._len_term()
        if lt(i, 0):
            i = plus(i, n)
            if lt(i, 0):
                return 0
            return i
        if z3.is_true(simp(term(i) <= n)):
            return i
        if lt(n, i):
            return n
        return i

    def slice(self, lo: Any, hi: Any) -> Any:
        a = self._clip(lo, 0)
        if hi is None:
            if num(a) == 0:
                return self.norm()
            return self.cut(a)[1].norm()
        b = self._clip(hi, None)
        if not lt(a, b):
            return self.empty
        left, _ = self.cut(b)
        if num(a) == 0:
            return left.norm()
        return left.cut(a)[1].norm()

    def __getitem__(self, k: Any) -> Any:
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                raise Unsupported("slice with a step")
            return self.slice(k.start, k.stop)
        if isinstance(k, (SBool, SEnum, SFlags)):
            k = SInt(term(k))
        i = k._z3 if isinstance(k, SInt) else k
        if not isinstance(k, (int, SInt)):
            raise TypeError("indices must be integers or slices")
        n = self._len_term()
        if lt(i, 0):
            i = plus(i, n)
            if lt(i, 0):
                raise IndexError("index out of range")
        elif not lt(i, n):
            raise IndexError("index out of range")
        return self._element(i)

    def _element(self, i: Any) -> Any:
        raise NotImplementedError

    def __iter__(self) -> Iterator[Any]:
        return SeqIter(self)

    # concatenation, comparison
    def __add__(self, o: Any) -> Any:
        if not self.compatible(o):
            if is_sym(o) and not isinstance(o, (SSeq, SInt, SBool, SByteArray)):
                raise Unsupported(f"+ of {type(self).__name__} and {type(o).__name__}")
            raise TypeError(f"can't concat {type(o).__name__} to {self.kind}")
        return self.cat([self, o])

    def __radd__(self, o: Any) -> Any:
        if not self.compatible(o):
            raise TypeError(f"can't concat {self.kind} to {type(o).__name__}")
        return self.cat([o, self])

    def __mul__(self, n: Any) -> Any:
        return repeat(self, n)

    __rmul__ = __mul__

    def compatible(self, o: Any) -> bool:
        return isinstance(o, type(self)) or isinstance(o, type(self.empty)) or (
            isinstance(self, SBytes) and isinstance(o, (SByteArray, bytearray)))

    def __eq__(self, o: Any) -> Any:
        if not self.compatible(o):
            if isinstance(o, (SSeq, bytes, str, int, type(None), SInt, SBool, tuple, list)):
                return False
            raise Unsupported(f"{type(self).__name__} == {type(o).__name__}")
        return seq_eq(self, type(self).of(o))

    def __ne__(self, o: Any) -> Any:
        return Not(self == o)

    __hash__ = Symbolic.__hash__

    def _contains(self, x: Any) -> Any:
        return self.find(x) >= 0

    def _one_sep(self, sep: Any, name: str) -> None:
        if is_sym(sep) or not isinstance(sep, (str, bytes)) or len(sep) != 1:
            raise Unsupported(name)

    def split(self, sep: Any = None, maxsplit: Any = -1) -> Any:
        self._one_sep(sep, "split")
        if is_sym(maxsplit) or maxsplit != 1:
            raise Unsupported("split into any number of parts")
        i = self.find(sep)
        return [self] if i < 0 else [self[:i], self[i + 1:]]

    def partition(self, sep: Any) -> Any:
        self._one_sep(sep, "partition")
        i = self.find(sep)
        empty = type(self).of(sep[:0])
        return (self, empty, empty) if i < 0 else (self[:i], type(self).of(sep), self[i + 1:])

    # searching
    def matches(self, at: Any, pat: Sequence[int]) -> Any:
        return z3.And([self._at(simp(term(at) + k)) == x for k, x in enumerate(pat)])

    def find(self, sub_: Any, start: Any = 0, end: Any = None) -> Any:
        if end is not None or is_sym(sub_):
            raise Unsupported("find")
        pat = [elem(x) for x in ([sub_] if isinstance(sub_, int) else sub_)]
        a = self._clip(start, 0)
        c = ctx()
        n = self._len_term()
        if num(a) is None or num(a) > 0:
            if isinstance(start, (SInt, int)) and lt(n, term(start)):
                return -1
        head, tail = self.cut(a)
        del head
        if len(pat) == 1:
            pos: Any = a
            ps = tail.pieces
            for k, p in enumerate(ps):
                if p.const is not None:
                    j = [elem(x) for x in p.const].index(pat[0]) if pat[0] in [elem(x) for x in p.const] else -1
                    if j >= 0:
                        return wrap(term(plus(pos, j)))
                    pos = plus(pos, p.len)
                    continue
                if p.nonul and pat[0] == 0:
                    pos = plus(pos, p.len)
                    continue
                if p.int is not None:
                    for j in range(p.len):
                        if c.branch(p.at(Int(j)) == pat[0]):
                            return wrap(term(plus(pos, j)))
                    pos = plus(pos, p.len)
                    continue
                break
            else:
                return -1
            a = pos
        if isinstance(n, int) and isinstance(a, int) and n - a < len(pat):
            return -1
        key = ("find", id(self), tuple(pat), tid(a))
        if key in c.memo:
            return wrap(c.memo[key][0])
        m = len(pat)
        r = ctx_fresh("find")
        a = term(a)
        if not c.branch(r >= 0):
            c.add(r == -1)
            q = z3.Int("q")
            c.add(z3.ForAll([q], z3.Implies(z3.And(q >= a, q + m <= n), z3.Not(self.matches(q, pat)))))
        else:
            c.add(z3.And(r >= a, r + m <= n, self.matches(r, pat)))
            q = z3.Int("q")
            c.add(z3.ForAll([q], z3.Implies(z3.And(q >= a, q < r), z3.Not(self.matches(q, pat)))))
            if c.sat() == z3.unsat:
                c.end()
        c.memo[key] = (r, self, a)
        return wrap(r)

    def index(self, x: Any) -> Any:
        r = self.find(x)
        if lt(term(r), 0):
            raise ValueError("subsection not found")
        return r

    def startswith(self, prefix: Any, start: Any = 0, end: Any = None) -> Any:
        if end is not None:
            raise Unsupported("startswith with an end")
        if isinstance(prefix, tuple):
            return Or(*[self.startswith(p, start) for p in prefix])
        if is_sym(prefix):
            raise Unsupported("startswith of a symbolic prefix")
        if num(start) is None and not ctx().entails(term(start) >= 0) or (num(start) or 0) < 0:
            raise Unsupported("startswith from a negative index")
        pat = [elem(x) for x in prefix]
        return wrap(z3.And(term(start) + len(pat) <= self._len_term(), self.matches(start, pat)))

    def endswith(self, suffix: Any) -> Any:
        if is_sym(suffix):
            raise Unsupported("endswith of a symbolic suffix")
        pat = [elem(x) for x in suffix]
        n = self._len_term()
        return wrap(z3.And(n >= len(pat), self.matches(n - len(pat), pat)))

    def rstrip(self, chars: Any = None) -> Any:
        return strip(self, chars, False, True)

    def lstrip(self, chars: Any = None) -> Any:
        return strip(self, chars, True, False)

    def strip(self, chars: Any = None) -> Any:
        return strip(self, chars, True, True)

    def ljust(self, width: Any, fill: Any = None) -> Any:
        if is_sym(fill):
            raise Unsupported("ljust with a symbolic character")
        fill = (b" " if self.kind == "bytes" else " ") if fill is None else fill
        n, w, x = self._len_term(), term(width), elem(fill[0] if self.kind == "bytes" else fill)
        if ctx().branch(n >= w):
            return self
        return type(self)(list(self.pieces) + [p_fun(lambda i: z3.IntVal(x), wrap(w - n), key=("fill", x))]).norm()

    def join(self, parts: Any) -> Any:
        return seq_join(self, parts)

    def key(self) -> Any:
        return tuple(p.key for p in self.pieces)


class SeqIter:
    """Iteration with unknown length: forks at each step (the loop's unrolling limit ends it)"""

    def __init__(self, s: Any):
        self.s = s
        self.i = 0

    def __iter__(self) -> Any:
        return self

    def __next__(self) -> Any:
        if lt(self.i, self.s._len_term()):
            x = self.s._element(self.i)
            self.i += 1
            if self.i > 70:
                raise Unsupported("a symbolic sequence iterated without an invariant")
            return x
        raise StopIteration


def seq_join(sep: Any, parts: Any) -> Any:
    if isinstance(parts, SAccum):
        if num(type(sep).of(sep)._len_term() if isinstance(sep, SSeq) else len(sep)) != 0:
            raise Unsupported("join of an abstract list with a separator")
        return parts.total
    cls = SStr if isinstance(sep, (str, SStr)) else SBytes
    out: List[Any] = []
    for i, x in enumerate(parts):
        if isinstance(x, AccItems) and num(type(sep).of(sep)._len_term() if isinstance(sep, SSeq) else len(sep)) == 0:
            out.append(x.acc.total)
            continue
        if not isinstance(x, (cls, str if cls is SStr else bytes, SByteArray, bytearray)) or (
                cls is SStr and isinstance(x, (SByteArray, bytearray))):
            raise TypeError(f"sequence item {i}: unexpected {type(x).__name__}")
        if i and (is_sym(sep) or sep):
            out.append(sep)
        out.append(x)
    return cls.cat(out) if out else cls.empty


def repeat(x: Any, n: Any) -> Any:
    if isinstance(x, list):
        raise Unsupported("repetition of a list")
    cls = SStr if isinstance(x, (str, SStr)) else SBytes
    k = num(n) if isinstance(n, (int, SInt)) else None
    s = cls.of(x)
    if k is not None:
        return cls.cat([s] * max(k, 0)) if k > 0 else cls.empty
    if num(s._len_term()) == 1:
        if lt(term(n), 0):
            return cls.empty
        return cls([p_rep(s._at(Int(0)), term(n))])
    raise Unsupported("repetition")


def seq_eq(a: SSeq, b: SSeq) -> Any:
    """Equality as a truth value that can be used in any polarity"""
    xs, ys = list(a.pieces), list(b.pieces)
    conds: List[Any] = []
    progress = True
    while xs and ys and progress:
        progress = False
        p, q = xs[0], ys[0]
        if same_key(p, q):
            xs.pop(0), ys.pop(0)
            progress = True
            continue
        if same_key(xs[-1], ys[-1]):
            xs.pop(), ys.pop()
            progress = True
            continue
        n, m = num(p.len), num(q.len)
        if n is not None and m is not None:
            k = min(n, m)
            if n != m:
                if n > k:
                    xs[0:1] = sub(p, 0, k) + sub(p, k, n - k)
                else:
                    ys[0:1] = sub(q, 0, k) + sub(q, k, m - k)
                progress = True
                continue
            conds.append(piece_eq(p, q, k))
            xs.pop(0), ys.pop(0)
            progress = True
            continue
        if z3.is_true(simp(term(p.len) == term(q.len))):
            conds.append(fun_eq(p, q))
            xs.pop(0), ys.pop(0)
            progress = True
    if not xs and not ys:
        return wrap(z3.And(conds)) if conds else True
    x, y = type(a)(xs), type(a)(ys)
    n, m = num(x._len_term()), num(y._len_term())
    if n is not None and m is not None and n != m:
        return False
    if not xs or not ys:
        # one side is empty here
        return wrap(z3.And(conds + [x._len_term() == y._len_term()]))
    if n is not None and n <= 64 or m is not None and m <= 64:
        k = n if n is not None else m
        conds.append(x._len_term() == y._len_term())
        conds += [x._at(Int(i)) == y._at(Int(i)) for i in range(k)]
        return wrap(z3.And(conds))
    e = z3.Bool(ctx().fresh_name("eq"))
    q_, d = z3.Int("q"), ctx_fresh("diff")
    c = ctx()
    lx, ly = x._len_term(), y._len_term()
    c.add(z3.Implies(e, z3.And(lx == ly, z3.ForAll([q_], z3.Implies(z3.And(q_ >= 0, q_ < lx), x._at(q_) == y._at(q_))))))
    c.add(z3.Implies(z3.Not(e), z3.Or(lx != ly, z3.And(d >= 0, d < lx, x._at(d) != y._at(d)))))
    return wrap(z3.And(conds + [e]))


def piece_eq(p: Piece, q: Piece, n: int) -> Any:
    if p.const is not None and q.const is not None:
        return z3.BoolVal(p.const == q.const)
    if p.int and q.int and p.int[1:] == q.int[1:]:
        return p.int[0] == q.int[0]
    if n > 4096:
        return fun_eq(p, q)
    if p.int and q.const is not None and p.int[1] == n:
        return p.int[0] == int.from_bytes(q.const, p.int[2])
    if q.int and p.const is not None and q.int[1] == n:
        return q.int[0] == int.from_bytes(p.const, q.int[2])
    return z3.And([p.at(Int(i)) == q.at(Int(i)) for i in range(n)])


def fun_eq(p: Piece, q: Piece) -> Any:
    c = ctx()
    e = z3.Bool(c.fresh_name("eq"))
    i, d = z3.Int("q"), ctx_fresh("diff")
    n = term(p.len)
    c.add(z3.Implies(e, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), p.at(i) == q.at(i)))))
    c.add(z3.Implies(z3.Not(e), z3.And(d >= 0, d < n, p.at(d) != q.at(d))))
    return e


LONGEST = 1 << 56  # no string fits in memory that is longer


class SBytes(SSeq):
    __slots__ = ()
    empty = b""
    kind = "bytes"

    @staticmethod
    def new(name: str, length: Any = None, nonul: bool = False) -> "SBytes":
        c = ctx()
        f = z3.Function(c.fresh_name(name), z3.IntSort(), z3.IntSort())
        n = ctx_fresh("len_" + name) if length is None else term(length)
        q = z3.Int("q")
        c.add(z3.ForAll([q], z3.And(f(q) >= (1 if nonul else 0), f(q) < 256), patterns=[f(q)]))
        c.add(z3.And(n >= 0, n < LONGEST))
        return SBytes([p_fun(lambda i: f(term(i)), n, key=("f", f.name(), simp(n)), nonul=nonul)])

    def _element(self, i: Any) -> Any:
        return wrap(self._at(term(i)))

    def decode(self, codec: Any = "utf-8", errors: Any = "strict") -> Any:
        return decode(self, codec, errors)

    def hex(self) -> Any:
        raise Unsupported("hex")

    def __format__(self, spec: str) -> str:
        raise Unsupported("format of bytes")


SPACES = [c for c in range(0x110000) if chr(c).isspace()]


def strip(s: SSeq, chars: Any, left: bool, right: bool) -> Any:
    """bytes.strip / str.strip: what is left doesn't begin or end with one of the elements, what is gone is all of them"""
    if is_sym(chars):
        raise Unsupported("strip of a symbolic set")
    if chars is None:
        chars = b" \t\n\r\x0b\x0c" if s.kind == "bytes" else "".join(map(chr, SPACES))
    if isinstance(chars, str) is (s.kind == "bytes"):
        raise TypeError("strip of another type")
    bad = sorted({elem(x) for x in chars})
    if right:
        s = strip_end(s, chars, bad)
    if left and isinstance(s, SSeq):
        s = strip_start(s, bad)
    elif left:
        s = s.lstrip(chars)
    return s


def strip_end(s: SSeq, chars: Any, bad: List[int]) -> Any:
    cls = type(s)
    ps = list(s.pieces)
    while ps:
        p = ps[-1]
        if p.const is not None:
            x = p.const.rstrip(chars)
            ps.pop()
            if x:
                return cls(ps + [p_const(x)]).norm()
            continue
        if p.nonul and bad == [0]:
            if num(p.len) is None and not lt(0, p.len):
                ps.pop()
                continue
            return cls(ps).norm()
        rest = cls(ps)
        n, m, q = rest._len_term(), ctx_fresh("stripped"), z3.Int("q")
        one = lambda i: z3.Or([rest._at(i) == x for x in bad]) if bad else z3.BoolVal(False)
        c = ctx()
        c.add(z3.And(m >= 0, m <= n, z3.Or(m == 0, z3.Not(one(m - 1)))))
        c.add(z3.ForAll([q], z3.Implies(z3.And(q >= m, q < n), one(q))))
        if c.branch(m == n):
            return rest.norm()
        return rest.slice(0, wrap(m))
    return s.empty


def strip_start(s: SSeq, bad: List[int]) -> Any:
    n, m, q = s._len_term(), ctx_fresh("stripped"), z3.Int("q")
    one = lambda i: z3.Or([s._at(i) == x for x in bad]) if bad else z3.BoolVal(False)
    c = ctx()
    c.add(z3.And(m >= 0, m <= n, z3.Or(m == n, z3.Not(one(m)))))
    c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), one(q))))
    if c.branch(m == 0):
        return s
    return s.slice(wrap(m), None)


def int_to_bytes(x: Any, width: int, order: str, signed: bool, error: Any, msg: str = "int too big to convert") -> Any:
    t = term(x)
    lo, hi = (-(1 << (8 * width - 1)), 1 << (8 * width - 1)) if signed else (0, 1 << (8 * width))
    meta = getattr(x, "_meta", None)
    if meta and meta[0] == "xor":
        if num(meta[1]._len_term()) == width and num(meta[2]._len_term()) == width:
            return xor_bytes(meta[1], meta[2], width)
        n, m = meta[1]._len_term(), meta[2]._len_term()
        if ctx().entails(z3.And(n == width, m == width)):
            return xor_bytes(meta[1], meta[2], width)
        raise Unsupported("to_bytes of a XOR")
    if not ctx().branch(z3.And(t >= lo, t < hi)):
        raise error(msg)
    if width == 0:
        return b""
    if signed:
        t = z3.If(t < 0, t + (1 << (8 * width)), t)
    return SBytes([p_int(t, width, order)]).norm_int()


def _norm_int(self: SBytes) -> Any:
    p = self.pieces[0]
    if p.int:
        n = num(p.int[0])
        if n is not None:
            return n.to_bytes(p.int[1], p.int[2])
    return self


SBytes.norm_int = _norm_int  # type: ignore


def int_from_bytes(s: Any, order: str, signed: bool = False) -> Any:
    s = SBytes.of(s)
    n = known(s._len_term())
    if n is None:
        # kept abstract, see xor_digests
        return SInt(ctx_fresh("from_bytes"), ("from_bytes", s, order))
    if n > 64:
        raise Unsupported("from_bytes of a long string")
    if len(s.pieces) == 1 and s.pieces[0].int and s.pieces[0].int[1:] == (n, order):
        t = s.pieces[0].int[0]
    else:
        t = Int(0)
        for k in range(n):
            t = t + s._at(Int(k)) * (1 << (8 * (k if order == "little" else n - 1 - k)))
    if signed and n:
        t = z3.If(t >= 1 << (8 * n - 1), t - (1 << (8 * n)), t)
    x = wrap(t)
    if isinstance(x, SInt) and n >= 16:
        x._meta = ("from_bytes", s, order)
    return x


def xor_bytes(a: SBytes, b: SBytes, n: Any) -> Any:
    def at(i: Any) -> Any:
        return xor_fn(a._at(i), b._at(i))
    if None in a.key() + b.key():
        return SBytes([p_fun(at, n)])
    key = ("xor", *sorted((a.key(), b.key()), key=repr))
    known_ = ctx().memo.setdefault("xors", [])
    for x, y in ((a, b), (b, a)):
        for k, p, q in known_:
            if x.key() == (k,):
                # (p ^ q) ^ q = p
                if same_keys(q, y):
                    return p.norm()
                if same_keys(p, y):
                    return q.norm()
    known_.append((key, a, b))
    return SBytes([p_fun(at, n, key=key)])


def same_keys(a: SBytes, b: SBytes) -> bool:
    return len(a.pieces) == len(b.pieces) and all(same_key(p, q) for p, q in zip(a.pieces, b.pieces))


def xor_fn(x: Any, y: Any) -> Any:
    """XOR of bytes: uninterpreted with the algebra that is needed"""
    c = ctx()
    f = z3.Function("xor8", z3.IntSort(), z3.IntSort(), z3.IntSort())
    if "xor8" not in c.memo:
        c.memo["xor8"] = True
        p, q = z3.Ints("p q")
        c.add(z3.ForAll([p, q], z3.And(f(p, q) >= 0, f(p, q) < 256), patterns=[f(p, q)]))
        inr = z3.And(p >= 0, p < 256, q >= 0, q < 256)
        c.add(z3.ForAll([p, q], z3.Implies(inr, f(f(p, q), q) == p), patterns=[f(f(p, q), q)]))
        c.add(z3.ForAll([p, q], f(p, q) == f(q, p), patterns=[f(p, q)]))
    return f(x, y)


class SStr(SSeq):
    __slots__ = ()
    empty = ""
    kind = "str"
    hi = 0x110000

    @staticmethod
    def new(name: str, length: Any = None, nonul: bool = False) -> "SStr":
        c = ctx()
        f = z3.Function(c.fresh_name(name), z3.IntSort(), z3.IntSort())
        n = ctx_fresh("len_" + name) if length is None else term(length)
        q = z3.Int("q")
        c.add(z3.ForAll([q], z3.And(f(q) >= (1 if nonul else 0), f(q) < 0x110000), patterns=[f(q)]))
        c.add(z3.And(n >= 0, n < LONGEST))
        return SStr([p_fun(lambda i: f(term(i)), n, key=("f", f.name(), simp(n)), nonul=nonul)])

    def _element(self, i: Any) -> Any:
        s, _ = self.cut(i)[1].cut(1)
        return s.norm()

    def nonul(self) -> bool:
        return all(p.nonul or (p.const is not None and "\0" not in p.const) for p in self.pieces)

    def sid(self) -> Any:
        """An integer that names this text"""
        c = ctx()
        k = self.key()
        if None not in k:
            for key, (t, s) in c.memo.get("sids", {}).items():
                if len(s.pieces) == len(self.pieces) and all(same_key(a, b) for a, b in zip(s.pieces, self.pieces)):
                    return t
        if self._memo is None:
            self._memo = ctx_fresh("sid")
            c.memo.setdefault("sids", {})[len(c.memo.get("sids", {}))] = (self._memo, self)
        return self._memo

    def encode(self, codec: Any = "utf-8", errors: Any = "strict") -> Any:
        return encode(self, codec, errors)

    def cls_char(self, table: str) -> Any:
        raise Unsupported(table)

    def lower(self) -> Any:
        return text_fn("lower", self)

    def upper(self) -> Any:
        return text_fn("upper", self)

    def isalnum(self) -> Any:
        return text_pred("isalnum", self)

    def isdigit(self) -> Any:
        return text_pred("isdigit", self)

    def isalpha(self) -> Any:
        return text_pred("isalpha", self)

    def isspace(self) -> Any:
        return text_pred("isspace", self)

    def _order(self, o: Any, op: str) -> Any:
        if num(self._len_term()) == 1 and isinstance(o, (str, SStr)) and num(SStr.of(o)._len_term()) == 1:
            x, y = self._at(Int(0)), SStr.of(o)._at(Int(0))
            return wrap({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])
        if isinstance(o, str) and len(o) == 1:
            n, x, y = self._len_term(), self._at(Int(0)), elem(o)
            greater = z3.And(n > 0, z3.Or(x > y, z3.And(x == y, n > 1)))
            equal = z3.And(n == 1, x == y)
            less = z3.Not(z3.Or(greater, equal))
            return wrap({"lt": less, "le": z3.Or(less, equal), "gt": greater, "ge": z3.Or(greater, equal)}[op])
        raise Unsupported("order of texts")

    def __lt__(self, o: Any) -> Any: return self._order(o, "lt")
    def __le__(self, o: Any) -> Any: return self._order(o, "le")
    def __gt__(self, o: Any) -> Any: return self._order(o, "gt")
    def __ge__(self, o: Any) -> Any: return self._order(o, "ge")

    def replace(self, old: Any, new: Any) -> Any:
        if is_sym(old) or is_sym(new):
            raise Unsupported("replace")
        return text_replace(self, old, new)

    def splitlines(self) -> Any:
        raise Unsupported("splitlines")


def text_pred(name: str, s: SStr) -> Any:
    """Of a text of at most one character: a function of the code point"""
    if not ctx().entails(s._len_term() <= 1):
        raise Unsupported(f"{name} of a text")
    f = z3.Function("chr_" + name, z3.IntSort(), z3.BoolSort())
    c = ctx()
    key = ("chr_" + name,)
    if key not in c.memo:
        c.memo[key] = True
        q = z3.Int("q")
        ascii_ = ranges([i for i in range(128) if getattr(chr(i), name)()])
        c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < 128), f(q) == z3.Or([z3.And(q >= a, q <= b) for a, b in ascii_])),
                        patterns=[f(q)]))
    return wrap(z3.And(s._len_term() == 1, f(s._at(Int(0)))))


def text_fn(name: str, s: SStr) -> Any:
    """An unspecified function on texts"""
    c = ctx()
    sid = s.sid()
    key = ("text_fn", name, sid.get_id())
    if key not in c.memo:
        c.memo[key] = (SStr.new(name), sid)
    return c.memo[key][0]


def text_replace(s: SStr, old: str, new: str) -> Any:
    """Replacing a character is a homomorphism: each character is mapped by itself"""
    if len(old) != 1:
        raise Unsupported("replace of several characters")
    out: List[Any] = []
    for p in s.pieces:
        if p.const is not None:
            out.append(p.const.replace(old, new))
            continue
        if p.tok is not None and p.tok[0] == "hom":
            mapping = {k: x.replace(old, new) for k, x in p.tok[1].items()}
            mapping.setdefault(old, new)
            out.append(hom(p.tok[2], mapping))
        else:
            out.append(hom(SStr([p]), {old: new}))
    return SStr.cat(out)


def hom(x: SStr, mapping: Dict[str, str]) -> SStr:
    """x with each character replaced by the mapping"""
    c = ctx()
    sid = x.sid()
    key = ("hom", tuple(sorted(mapping.items())), sid.get_id())
    if key not in c.memo:
        y = SStr.new("mapped")
        p = y.pieces[0]
        if all(mapping.values()):
            c.add(p.len >= x._len_term())
            c.add((p.len == 0) == (x._len_term() == 0))
        c.memo[key] = (SStr([Piece(p.len, p.at, key=("hom", key[1], sid), tok=("hom", dict(mapping), x))]), sid)
    return c.memo[key][0]


class SCharset(Symbolic):
    """A character set of the catalogue, unspecified"""
    __slots__ = ("cid", "label", "cls")

    def __init__(self, cid: Any, label: str = "charset", cls: Any = None):
        self.cid = cid
        self.label = label
        self.cls = cls

    @property
    def __class__(self) -> Any:
        return self.cls or SCharset

    @property
    def codec(self) -> Any:
        return SCodec(self.cid)

    @property
    def name(self) -> Any:
        return SCharsetName(self)

    @property
    def _z3(self) -> Any:
        return self.cid

    def decode(self, b: Any) -> Any:
        return decode(b, SCodec(self.cid), "strict")

    def encode(self, s: Any) -> Any:
        return encode(s, SCodec(self.cid), "strict")

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, (SCharset, int)):
            return wrap(self.cid == term(o))
        return False

    __hash__ = Symbolic.__hash__

    def __bool__(self) -> bool:
        return True  # no character set has id 0

    def __index__(self) -> int:
        raise Unsupported("id of an unspecified character set")


class SCharsetName(Symbolic):
    __slots__ = ("charset",)

    def __init__(self, charset: SCharset):
        self.charset = charset

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, SCharsetName):
            return self.charset == o.charset
        raise Unsupported("name of an unspecified character set")

    def lower(self) -> Any:
        return self

    __hash__ = Symbolic.__hash__


class SCodec(Symbolic):
    __slots__ = ("cid",)

    def __init__(self, cid: Any):
        self.cid = cid

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, SCodec):
            return wrap(self.cid == o.cid)
        raise Unsupported("comparison of a codec")

    __hash__ = Symbolic.__hash__


CODECS: Dict[str, int] = {}


def codec_id(codec: Any) -> Any:
    if isinstance(codec, SCodec):
        return codec.cid
    if isinstance(codec, str):
        import codecs
        n = codecs.lookup(codec).name
        return Int(-1 - CODECS.setdefault(n, len(CODECS)))
    raise Unsupported("codec")


_I = z3.IntSort()
ENC_AT = z3.Function("enc_at", _I, _I, _I, _I)
ENC_LEN = z3.Function("enc_len", _I, _I, _I)


def encode(s: Any, codec: Any, errors: Any = "strict") -> Any:
    """Contract of the codecs: encode and decode are inverse on representable text; the text is assumed to be representable
    (an application or a client that sends something else gets an error, which the properties allow)"""
    if isinstance(s, str) and isinstance(codec, str):
        return s.encode(codec, errors)
    c = ctx()
    s = SStr.of(s)
    if isinstance(codec, str) and s.pieces and all(is_ascii(p) for p in s.pieces) and ascii_compatible(codec):
        return SBytes([p_const(p.const.encode("ascii")) if p.const is not None else
                       Piece(p.len, p.at, key=("ascii", p.key) if p.key is not None else None, nonul=p.nonul) for p in s.pieces]).norm()
    cid = codec_id(codec)
    for entry in c.memo.get("decoded", []):
        if entry[0] is s or (entry[0].key() == s.key() and None not in s.key()):
            if z3.is_true(simp(entry[1] == cid)):
                return entry[2].norm()
    if not s.pieces:
        return b""  # of every codec without a byte order mark
    sid = s.sid()
    key = ("enc", tid(cid), sid.get_id())
    if key not in c.memo:
        nonul = all(p.nonul or (p.const is not None and "\0" not in p.const) for p in s.pieces)
        f = lambda i: ENC_AT(cid, sid, term(i))
        n = ENC_LEN(cid, sid)
        c.add(z3.And(n >= 0, n < LONGEST))
        c.add(z3.Implies(s._len_term() == 0, n == 0))
        c.add(z3.Implies(s._len_term() > 0, n > 0))
        q = z3.Int("q")
        c.add(z3.ForAll([q], z3.And(f(q) >= (1 if nonul else 0), f(q) < 256), patterns=[f(q)]))
        b = SBytes([p_fun(f, n, key=("enc", cid, sid), nonul=nonul, tok=("enc", cid, s))])
        c.memo[key] = (b, cid, sid, s)
    return c.memo[key][0]


def decode(b: Any, codec: Any, errors: Any = "strict") -> Any:
    if isinstance(b, bytes) and isinstance(codec, str):
        return b.decode(codec, errors)
    c = ctx()
    b = SBytes.of(b)
    cid = codec_id(codec)
    if not b.pieces:
        return ""
    if len(b.pieces) == 1 and b.pieces[0].tok and b.pieces[0].tok[0] == "enc" and z3.is_true(simp(b.pieces[0].tok[1] == cid)):
        return b.pieces[0].tok[2].norm()
    for s, d, x in c.memo.get("decoded", []):
        if z3.is_true(simp(d == cid)) and len(x.pieces) == len(b.pieces) and all(same_key(p, q) for p, q in zip(x.pieces, b.pieces)):
            return s
    s = SStr.new("decoded")
    c.add(z3.Implies(b._len_term() == 0, s._len_term() == 0))
    c.add(z3.Implies(b._len_term() > 0, s._len_term() > 0))
    c.memo.setdefault("decoded", []).append((s, cid, b))
    return s


def is_ascii(p: Piece) -> bool:
    return p.const is not None and p.const.isascii() or p.tok is not None and p.tok[0] == "ascii"


def ascii_compatible(codec: str) -> bool:
    try:
        return all(chr(i).encode(codec) == bytes([i]) for i in range(128))
    except (UnicodeError, LookupError):
        return False


# --- text of numbers

DEC_AT = z3.Function("dec_at", _I, _I, _I)
DEC_LEN = z3.Function("dec_len", _I, _I)


def fmt_int(x: Any, spec: str = "") -> Any:
    """format(x, spec) of an integer"""
    t = simp(term(x))
    n = num(t)
    if n is not None:
        return format(n, spec)
    c = ctx()
    if spec in ("", "d"):
        key = ("dec", t.get_id())
        if key not in c.memo:
            t0, t = t, z3.Int(c.fresh_name("number"))
            c.add(t == t0)
            f = lambda i: DEC_AT(t, term(i))
            q = z3.Int("q")
            c.add(DEC_LEN(t) >= 1)
            c.add(z3.ForAll([q], z3.And(f(q) >= 45, f(q) < 58, f(q) != 46, f(q) != 47), patterns=[f(q)]))
            c.add(z3.Implies(z3.And(t >= 0, t <= 9), z3.And(DEC_LEN(t) == 1, f(0) == 48 + t)))
            c.add(z3.Implies(z3.And(t >= 10, t <= 99), z3.And(DEC_LEN(t) == 2, f(0) == 48 + t / 10, f(1) == 48 + t % 10)))
            c.add((f(Int(0)) == 45) == (t < 0))
            c.memo[key] = (SStr([p_fun(f, DEC_LEN(t), key=("dec", t), nonul=True, tok=("ascii",))]), t0)
        return c.memo[key][0]
    if spec in ("02", "02d"):
        if c.branch(z3.And(t >= 0, t <= 99)):
            return SStr([p_fun(lambda i, t=t: z3.If(term(i) == 0, 48 + t / 10, 48 + t % 10), 2, key=("02", t), nonul=True, tok=("ascii",))])
        return fmt_int(x)
    if spec in ("06", "06d"):
        if c.branch(z3.And(t >= 0, t <= 999999)):
            return SStr([p_fun(lambda i, t=t: _select(term(i), {k: 48 + t / 10 ** (5 - k) % 10 for k in range(6)}), 6, key=("06", t), nonul=True, tok=("ascii",))])
        return fmt_int(x)
    raise Unsupported(f"format of an integer as {spec!r}")


def to_str(x: Any) -> Any:
    if isinstance(x, SStr):
        return x
    if isinstance(x, (SInt,)):
        return fmt_int(x)
    if isinstance(x, SBool):
        return "True" if x else "False"
    f = getattr(type(x), "_str", None)
    if f:
        return f(x)
    raise Unsupported(f"str() of {type(x).__name__}")


def to_fmt(x: Any, conv: int, spec: Any) -> Any:
    if conv == ord("r"):
        if is_sym(x):
            raise Unsupported("repr of a symbolic value")
        x = repr(x)
    elif conv in (ord("s"), ord("a")):
        x = to_str(x) if is_sym(x) else str(x)
    if not is_sym(x):
        return format(x, spec)
    if is_sym(spec):
        raise Unsupported("symbolic format")
    if isinstance(x, SInt):
        return fmt_int(x, spec)
    if spec:
        raise Unsupported(f"format {spec!r}")
    return to_str(x)


# --- mutable

class SByteArray(Symbolic):
    __slots__ = ("rope",)
    _mutable = True

    def __init__(self, rope: Any = b""):
        self.rope = SBytes.of(rope)

    def extend(self, x: Any) -> None:
        if isinstance(x, list):
            x = bytes_of(x)
        self.rope = SBytes.of(SBytes.cat([self.rope, x]))

    def append(self, x: Any) -> None:
        self.rope = SBytes.of(SBytes.cat([self.rope, bytes_of([x])]))

    def clear(self) -> None:
        self.rope = SBytes([])

    def __iadd__(self, x: Any) -> Any:
        self.extend(x)
        return self

    def __add__(self, x: Any) -> Any:
        return SByteArray(SBytes.cat([self.rope, x]))

    def __radd__(self, x: Any) -> Any:
        r = SBytes.cat([x, self.rope])
        return r if isinstance(x, (bytes, SBytes)) else SByteArray(r)

    def __getitem__(self, k: Any) -> Any:
        r = self.rope[k]
        return SByteArray(r) if isinstance(k, slice) else r

    def __setitem__(self, k: Any, x: Any) -> None:
        if isinstance(k, slice):
            raise Unsupported("assignment to a slice")
        if isinstance(x, (SBool, SEnum)):
            x = SInt(term(x))
        i = term(k)
        n = self.rope._len_term()
        if not ctx().branch(z3.And(i >= 0, i < n)):
            if ctx().branch(z3.And(i < 0, i >= -n)):
                raise Unsupported("negative index")
            raise IndexError("bytearray index out of range")
        if not ctx().branch(z3.And(term(x) >= 0, term(x) < 256)):
            raise ValueError("byte must be in range(0, 256)")
        old = self.rope
        t = term(x)
        self.rope = SBytes([p_fun(lambda j: z3.If(term(j) == i, t, old._at(j)), n)])

    def __delitem__(self, k: Any) -> None:
        if isinstance(k, slice) and k.step is None and k.start in (None, 0):
            self.rope = SBytes.of(self.rope.slice(k.stop, None)) if k.stop is not None else SBytes([])
            return
        raise Unsupported("del of bytes")

    def __bool__(self) -> bool:
        return bool(self.rope)

    def __eq__(self, o: Any) -> Any:
        return self.rope == (o.rope if isinstance(o, SByteArray) else bytes(o) if isinstance(o, bytearray) else o)

    def __ne__(self, o: Any) -> Any:
        return Not(self == o)

    __hash__ = Symbolic.__hash__

    def length(self) -> Any:
        return self.rope.length()

    def _len_term(self) -> Any:
        return self.rope._len_term()

    def __iter__(self) -> Any:
        return iter(self.rope)

    def decode(self, codec: Any = "utf-8", errors: Any = "strict") -> Any:
        return decode(self.rope, codec, errors)

    def find(self, *a: Any) -> Any:
        return self.rope.find(*a)

    def startswith(self, *a: Any) -> Any:
        return self.rope.startswith(*a)

    def _contains(self, x: Any) -> Any:
        return self.rope._contains(x)


def bytes_of(x: Any) -> Any:
    """bytes(x)"""
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SByteArray):
        return x.rope.norm()
    if isinstance(x, (SInt, SBool)):
        t = term(x) if isinstance(x, SInt) else x._int()
        if lt(t, 0):
            raise ValueError("negative count")
        return SBytes([p_rep(Int(0), t)])
    if isinstance(x, (list, tuple)) and any(is_sym(e) for e in x):
        out: List[Any] = []
        for e in x:
            out.append(int_to_bytes(e, 1, "little", False, ValueError, "bytes must be in range(0, 256)") if is_sym(e) else bytes([e]))
        return SBytes.cat(out)
    if hasattr(type(x), "__bytes__"):
        return type(x).__bytes__(x)
    if is_sym(x):
        raise Unsupported(f"bytes({type(x).__name__})")
    return bytes(x)


class SReader(Symbolic):
    """io.BytesIO"""
    __slots__ = ("data", "pos")
    _mutable = True

    def __init__(self, data: Any = b""):
        self.data = SBytes.of(data)
        self.pos: Any = 0

    def _rest(self) -> SBytes:
        n = self.data._len_term()
        if num(self.pos) == 0:
            return self.data
        if lt(n, self.pos):
            return SBytes([])
        return self.data.cut(self.pos)[1]

    def read(self, n: Any = -1) -> Any:
        rest = self._rest()
        if n is None or lt(term(n), 0):
            self.pos = plus(self.pos, rest._len_term())
            return rest.norm()
        k = rest._len_term()
        t = term(n)
        if z3.is_true(simp(t <= k)) or not lt(k, t):
            head, _ = rest.cut(num(t) if num(t) is not None else t)
            self.pos = plus(self.pos, num(t) if num(t) is not None else t)
            return head.norm()
        self.pos = plus(self.pos, k)
        return rest.norm()

    def tell(self) -> Any:
        return wrap(term(self.pos))

    def seek(self, pos: Any, whence: int = 0) -> Any:
        if whence != 0:
            raise Unsupported("seek")
        if lt(term(pos), 0):
            raise ValueError("negative seek value")
        n = num(term(pos))
        self.pos = n if n is not None else term(pos)
        return wrap(term(self.pos))

    def getvalue(self) -> Any:
        return self.data.norm()

    def remaining(self) -> Any:
        return self._rest()


class SAccum(Symbolic):
    """A list of unknown length of which only the concatenation of its elements and the last one matter"""
    __slots__ = ("total", "count", "last")
    _mutable = True

    def __init__(self, total: Any, count: Any = None, last: Any = None):
        self.total = total
        self.count = count
        self.last = last  # if it isn't empty

    def __bool__(self) -> bool:
        if self.last is not None:
            return True
        raise Unsupported("truth of an abstract list")

    def __getitem__(self, k: Any) -> Any:
        if k == -1 and self.last is not None:
            return self.last
        raise Unsupported("element of an abstract list")

    def append(self, x: Any) -> None:
        self.last = x
        cls = SStr if isinstance(self.total, (str, SStr)) else SBytes
        self.total = cls.cat([self.total, x])
        if self.count is not None:
            self.count = self.count + 1

    def extend(self, xs: Any) -> None:
        for x in xs:
            self.append(x)

    def __iadd__(self, xs: Any) -> Any:
        self.extend(xs)
        return self


class AccItems(Symbolic):
    """The elements of an SAccum as arguments of a call; only their concatenation can be used"""
    __slots__ = ("acc",)

    def __init__(self, acc: SAccum):
        self.acc = acc


class SList(Symbolic):
    """A list of unknown length: element i is at(i) for i < base, then the appended ones"""
    __slots__ = ("base", "at", "tail")
    _mutable = True

    def __init__(self, base: Any, at: Callable[[Any], Any], tail: Optional[list] = None):
        self.base = base  # term or int
        self.at = at
        self.tail = list(tail or [])

    def length(self) -> Any:
        return wrap(term(plus(self.base, len(self.tail))))

    def _len_term(self) -> Any:
        return term(plus(self.base, len(self.tail)))

    def append(self, x: Any) -> None:
        self.tail.append(x)

    def __bool__(self) -> bool:
        return bool(self.length() > 0)

    def __getitem__(self, k: Any) -> Any:
        if isinstance(k, slice):
            if k.step is not None or k.start is not None and k.stop is not None:
                raise Unsupported("slice of a list")
            n = self._len_term()
            if k.stop is not None:
                s = term(k.stop)
                if not ctx().entails(s >= 0):
                    raise Unsupported("slice of a list up to a negative index")
                m = s if not lt(n, s) else n
                return SList(m, lambda i, me=self._frozen(): me._get(i))
            if k.start is None:
                return SList(n, lambda i, me=self._frozen(): me._get(i))
            s = term(k.start)
            if not ctx().entails(s >= 0):
                raise Unsupported("slice of a list from a negative index")
            if lt(n, s):
                return SList(0, self.at)
            return SList(minus(n, s), lambda i, me=self._frozen(), s=s: me._get(simp(term(i) + s)))
        i = term(k)
        n = self._len_term()
        if lt(i, 0):
            i = plus(i, n)
            if lt(i, 0):
                raise IndexError("list index out of range")
        elif not lt(i, n):
            raise IndexError("list index out of range")
        return self._get(i)

    def _frozen(self) -> "SList":
        return SList(self.base, self.at, self.tail)

    def _get(self, i: Any) -> Any:
        if self.tail:
            if not lt(i, self.base):
                j = concretise_int(minus(i, self.base), "index")
                return self.tail[j]
        return self.at(term(i))

    def __iter__(self) -> Any:
        return ListIter(self)


class ListIter:
    def __init__(self, s: SList):
        self.s = s
        self.i = 0

    def __iter__(self) -> Any:
        return self

    def __next__(self) -> Any:
        n = self.s._len_term()
        if lt(self.i, n):
            x = self.s._get(Int(self.i))
            self.i += 1
            if self.i > 70:
                raise Unsupported("a symbolic list iterated without an invariant")
            return x
        raise StopIteration


class Opaque(Symbolic):
    """A value nothing is known about"""
    __slots__ = ("label", "_z3")

    def __init__(self, label: str):
        self.label = label
        self._z3 = ctx_fresh(label)

    def __eq__(self, o: Any) -> Any:
        if o is self:
            return True
        if isinstance(o, Opaque):
            return wrap(self._z3 == o._z3)
        raise Unsupported(f"{self.label} == ...")

    __hash__ = Symbolic.__hash__

    def __bool__(self) -> bool:
        return ctx().branch(z3.Bool(f"truth_{self._z3}"))

    def __repr__(self) -> str:
        return f"<{self.label}>"


class KeyInt(SInt):
    """An integer as the key of a plain dictionary; lookups compare with every key"""
    __slots__ = ()

    def __hash__(self) -> int:
        return id(self)


class Poison(Symbolic):
    """A local that a cut loop may have changed in an unspecified way"""
    __slots__ = ("name",)

    def __init__(self, name: str):
        self.name = name

    def _no(self, *a: Any, **k: Any) -> Any:
        raise Unsupported(f"{self.name} is changed by a loop whose invariant doesn't mention it")

    def __getattr__(self, name: str) -> Any:
        self._no()

    __bool__ = __len__ = __iter__ = __getitem__ = __eq__ = __ne__ = __lt__ = __add__ = __radd__ = __sub__ = __call__ = _no  # type: ignore
    __index__ = __aiter__ = __and__ = __or__ = __le__ = __gt__ = __ge__ = __contains__ = __str__ = _no  # type: ignore
    __hash__ = Symbolic.__hash__


class SDict(Symbolic):
    """A dictionary of unknown size with integer keys"""
    __slots__ = ("has", "val", "n", "label")
    _mutable = True

    def __init__(self, label: str, val: Optional[Callable[[Any], Any]] = None):
        c = ctx()
        f = z3.Function(c.fresh_name(label), z3.IntSort(), z3.BoolSort())
        self.label = label
        self.has: Callable[[Any], Any] = lambda k: f(k)
        self.val: Callable[[Any], Any] = val or (lambda k: OpaqueAt(label, k))
        self.n = ctx_fresh("n_" + label)
        c.add(self.n >= 0)

    def length(self) -> Any:
        return wrap(self.n)

    def _len_term(self) -> Any:
        return self.n

    def __bool__(self) -> bool:
        return ctx().branch(self.n > 0)

    def _contains(self, k: Any) -> Any:
        if not isinstance(k, (int, SInt)):
            raise Unsupported("key")
        return wrap(self.has(term(k)))

    def __getitem__(self, k: Any) -> Any:
        if not ctx().branch(self.has(term(k))):
            raise KeyError(k)
        return self.val(term(k))

    def get(self, k: Any, default: Any = None) -> Any:
        if not isinstance(k, (int, SInt)):
            raise Unsupported("key")
        if not ctx().branch(self.has(term(k))):
            return default
        return self.val(term(k))

    def __setitem__(self, k: Any, x: Any) -> None:
        t, h, g = term(k), self.has, self.val
        self.n = simp(self.n + z3.If(h(t), 0, 1))
        self.has = lambda j: z3.Or(j == t, h(j))
        self.val = lambda j: x if same(j, t) else g(j)

    def _remove(self, t: Any) -> None:
        h = self.has
        self.n = simp(self.n - z3.If(h(t), 1, 0))
        self.has = lambda j: z3.And(j != t, h(j))

    def __delitem__(self, k: Any) -> None:
        if not ctx().branch(self.has(term(k))):
            raise KeyError(k)
        self._remove(term(k))

    def pop(self, k: Any, *default: Any) -> Any:
        t = term(k)
        if ctx().branch(self.has(t)):
            x = self.val(t)
            self._remove(t)
            return x
        if not default:
            raise KeyError(k)
        return default[0]

    def setdefault(self, k: Any, default: Any = None) -> Any:
        if ctx().branch(self.has(term(k))):
            return self.val(term(k))
        self[k] = default
        return default

    def __iter__(self) -> Any:
        raise Unsupported("iteration over a symbolic dictionary")


def same(a: Any, b: Any) -> bool:
    """Fork on equality"""
    return ctx().branch(term(a) == term(b))


def OpaqueAt(label: str, k: Any) -> "Opaque":
    """The value of a dictionary at a key"""
    c = ctx()
    for t, o in c.memo.setdefault(("at", label), []):
        if same(t, k):
            return o
    o = Opaque(label)
    c.memo[("at", label)].append((k, o))
    return o
