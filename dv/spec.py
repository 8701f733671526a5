"""Functions for specifications. They accept symbolic and concrete values."""
from __future__ import annotations

import asyncio
from typing import Any, Callable, List, Sequence

import z3

from dv import core, shadow, sym
from dv.core import Unsupported, ctx, term
from dv.sym import SBool, SBytes, SInt, SSeq, SStr, is_sym


def symbolic() -> bool:
    return core.CTX is not None and core.CTX.symbolic


def And(*xs: Any) -> Any:
    return sym.And(*xs) if any(is_sym(x) or z3.is_expr(x) for x in xs) else all(bool(x) for x in xs)


def Or(*xs: Any) -> Any:
    return sym.Or(*xs) if any(is_sym(x) or z3.is_expr(x) for x in xs) else any(bool(x) for x in xs)


def Not(x: Any) -> Any:
    return sym.Not(x) if is_sym(x) or z3.is_expr(x) else not x


def Implies(a: Any, b: Any) -> Any:
    return Or(Not(a), b)


def eq(a: Any, b: Any) -> Any:
    """Same type of value (bytes, text, integer, ...) and equal"""
    a = sym.wrap(a) if z3.is_expr(a) else a
    b = sym.wrap(b) if z3.is_expr(b) else b
    if isinstance(a, sym.SByteArray):
        a = a.rope
    if isinstance(b, sym.SByteArray):
        b = b.rope
    if isinstance(a, bytearray):
        a = bytes(a)
    if isinstance(b, bytearray):
        b = bytes(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And(len(a) == len(b), *[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, list) and isinstance(b, list):
        return And(len(a) == len(b), *[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, SSeq) or isinstance(b, SSeq):
        cls = type(a) if isinstance(a, SSeq) else type(b)
        try:
            return sym.seq_eq(cls.of(a), cls.of(b))
        except TypeError:
            return False
    if a is None or b is None:
        return a is b
    if is_sym(a):
        return a == b
    if is_sym(b):
        return b == a
    return a == b


def ite(c: Any, a: Any, b: Any) -> Any:
    """Of integers"""
    if isinstance(c, bool):
        return a if c else b
    return sym.wrap(z3.If(sym.truth(c), term(a), term(b)))


def le(x: Any, n: int) -> Any:
    """x as an unsigned little endian integer of n bytes; 0 <= x < 256**n is up to the caller"""
    if is_sym(x):
        t = term(x) if not isinstance(x, SBool) else x._int()
        return SBytes([sym.p_int(t, n, "little")]).norm_int()
    return int(x).to_bytes(n, "little")


def les(x: Any, n: int) -> Any:
    """Two's complement"""
    if is_sym(x):
        t = term(x)
        return le(sym.wrap(z3.If(t < 0, t + (1 << (8 * n)), t)), n)
    return int(x).to_bytes(n, "little", signed=True)


def cat(*parts: Any) -> Any:
    if any(is_sym(p) for p in parts):
        if any(isinstance(p, (SStr, str)) for p in parts):
            return SStr.cat(parts)
        return SBytes.cat(parts)
    r = parts[0] if parts else b""
    for p in parts[1:]:
        r = r + p
    return r


def length(x: Any) -> Any:
    return x.length() if is_sym(x) else len(x)


def at(x: Any, i: Any) -> Any:
    """Element of a byte string as an integer; 0 <= i < len"""
    if is_sym(x) or is_sym(i):
        return sym.wrap(SBytes.of(x)._at(term(i)))
    return x[i]


def part(x: Any, lo: Any, hi: Any = None) -> Any:
    """Slice with 0 <= lo <= hi <= len"""
    if is_sym(x) or is_sym(lo) or is_sym(hi):
        cls = SStr if isinstance(x, (str, SStr)) else SBytes
        return cls.of(x).slice(lo, hi)
    return x[lo:hi]


def zeros(n: Any) -> Any:
    return sym.bytes_of(n) if is_sym(n) else bytes(n)


def lenenc(x: Any) -> Any:
    """Length encoded integer, as the protocol documents it"""
    if is_sym(x) and "lenenc" in ctx().state:
        return ctx().state["lenenc"](x)
    if x < 251:
        return le(x, 1)
    if x < 1 << 16:
        return cat(b"\xfc", le(x, 2))
    if x < 1 << 24:
        return cat(b"\xfd", le(x, 3))
    return cat(b"\xfe", le(x, 8))


def lenstr(b: Any) -> Any:
    return cat(lenenc(length(b)), b)


def nulstr(b: Any) -> Any:
    return cat(b, b"\0")


def divmod_(a: Any, b: int) -> Any:
    return (a // b, a % b)


def reader(data: Any, pos: Any = 0) -> Any:
    """io.BytesIO at a position"""
    if symbolic():
        r = sym.SReader(data)
        r.pos = pos if isinstance(pos, int) else term(pos)
        return r
    import io
    r = io.BytesIO(data)
    r.seek(pos)
    return r


def rest(r: Any) -> Any:
    """What a reader hasn't read yet"""
    if isinstance(r, sym.SReader):
        return r.remaining().norm()
    p = r.tell()
    x = r.read()
    r.seek(p)
    return x


def raises(f: Callable, *exc: Any) -> Any:
    """The exception f() raises, or None"""
    try:
        f()
    except exc as e:
        return e
    return None


def run(coro: Any) -> Any:
    """The result of a coroutine of the code"""
    if symbolic():
        return shadow.drive(coro)
    return asyncio.new_event_loop().run_until_complete(coro) if False else _plain(coro)


def _plain(coro: Any) -> Any:
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    finally:
        coro.close()
    raise Unsupported("the coroutine waits for something without a contract")


def bits(x: Any, n: int) -> List[Any]:
    """The n lowest bits of a byte string or integer"""
    if is_sym(x):
        return [sym.wrap(sym.bit(term(x), i)) for i in range(n)]
    return [bool(x >> i & 1) for i in range(n)]


def opaque(name: str) -> Any:
    """Some object nothing is known about"""
    return sym.Opaque(name) if symbolic() else object()


class Ghost(dict):
    pass
