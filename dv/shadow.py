"""The modules of /repo/mysql_mimic, executed by CPython on symbolic values.

The source text of the current tree is parsed, and exactly these constructs are routed through hooks (everything else is
untouched): calls, subscript loads, in / not in / is / is not, f-strings, and the heads of loops.  On concrete operands a hook
does what Python does.  Builtins and a few standard modules are replaced by versions that also accept symbolic values.
"""
from __future__ import annotations

import ast
import asyncio as real_asyncio
import builtins
import datetime as real_datetime
import enum
import importlib
import io as real_io
import math
import os
import struct as real_struct
import sys
import types as pytypes
from typing import Any, Callable, Dict, List, Optional, Tuple

import z3

from dv import core, regex, sym
from dv.core import Unsupported, ctx, term
from dv.sym import (SBool, SByteArray, SBytes, SEnum, SFlags, SInt, SList, SReader, SSeq, SStr, SAccum, Symbolic, is_sym, num,
                    wrap, And, Or, Not)

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "mysql_mimic"
SHADOW: Dict[str, Any] = {}
LOOPS: Dict[str, Tuple[str, int]] = {}  # for the evidence


# ------------------------------------------------------------------ rewriting

def _name(n: str, store: bool = False) -> ast.Name:
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


def _call(f: str, *args: ast.expr) -> ast.Call:
    return ast.Call(func=_name(f), args=list(args), keywords=[])


def _noargs() -> ast.arguments:
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def _arg(n: str) -> ast.arguments:
    a = _noargs()
    a.args.append(ast.arg(arg=n))
    return a


class _Stores(ast.NodeVisitor):
    """Names a loop body binds"""

    def __init__(self) -> None:
        self.names: List[str] = []

    def add(self, n: str) -> None:
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node: ast.Name) -> None:
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_ExceptHandler(self, node: ast.ExceptHandler) -> None:
        self.generic_visit(node)

    def visit_FunctionDef(self, node: Any) -> None:
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node: ast.Lambda) -> None:
        pass

    def visit_ListComp(self, node: Any) -> None:
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.add(n.target.id)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


MUTATORS = {"append", "extend", "add", "insert", "update", "pop", "clear", "remove", "discard", "setdefault", "popitem", "write", "appendleft"}


def _mutated(body: List[ast.stmt]) -> List[str]:
    """Names of objects a loop body changes by calling a method or assigning an item"""
    out: List[str] = []
    for s in body:
        for n in ast.walk(s):
            x: Any = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                x = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                x = n.value
            if isinstance(x, ast.Name) and x.id not in out:
                out.append(x.id)
    return out


class Rewriter(ast.NodeTransformer):
    def __init__(self) -> None:
        self.locals: List[set] = [set()]
        self.scope: List[str] = []
        self.loops: List[int] = [0]
        self.decl: List[set] = [set()]
        self.n = 0

    def _func(self, node: Any) -> Any:
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.append(node.name)
        self.loops.append(0)
        nl = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                nl.update(n.names)
        self.decl.append(nl)
        st = _Stores()
        for s in node.body:
            st.visit(s)
        a = node.args
        self.locals.append((set(st.names) | {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}) - nl)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d else d for d in node.args.kw_defaults]
        node.body = self._body(node.body)
        self.decl.pop()
        self.locals.pop()
        self.loops.pop()
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node: ast.ClassDef) -> Any:
        self.scope.append(node.name)
        self.loops.append(0)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._body(node.body)
        self.loops.pop()
        self.scope.pop()
        return node

    def _body(self, body: List[ast.stmt]) -> List[ast.stmt]:
        out: List[ast.stmt] = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, node: ast.AnnAssign) -> Any:
        node.target = self.visit(node.target)
        if node.value:
            node.value = self.visit(node.value)
        return node  # annotations stay

    # --- loops
    def _loop(self, node: Any) -> Any:
        k = self.loops[-1]
        self.loops[-1] += 1
        if not self.scope:
            return self.generic_visit(node)  # at module level
        name = ".".join(self.scope)
        st = _Stores()
        for s in node.body:
            st.visit(s)
        is_for = isinstance(node, (ast.For, ast.AsyncFor))
        if is_for:
            st.visit(node.target)
        elif isinstance(node.test, ast.NamedExpr):
            st.visit(node.test)
        names = [n for n in st.names if n not in self.decl[-1]]
        muts = [n for n in _mutated(node.body) if n in self.locals[-1] and n not in names]
        self.n += 1
        lv, iv, cv = f"_dv_l{self.n}", f"_dv_i{self.n}", f"_dv_t{self.n}"
        pre: List[ast.stmt] = []
        if is_for:
            itf = "_dv_aiter" if isinstance(node, ast.AsyncFor) else "_dv_iter"
            pre.append(ast.Assign(targets=[_name(iv, True)], value=_call(itf, self.visit(node.iter))))
        it_arg = _name(iv) if is_for else ast.Constant(None)
        pre.append(ast.Assign(targets=[_name(lv, True)],
                              value=_call("_dv_loop", ast.Constant(f"{name}#{k}"), it_arg,
                                          ast.Tuple(elts=[ast.Constant(n) for n in names], ctx=ast.Load()),
                                          ast.Tuple(elts=[ast.Constant(n) for n in muts], ctx=ast.Load()))))
        names = names + muts
        head: List[ast.stmt] = []
        value = ast.Call(func=ast.Attribute(value=_name(lv), attr="head", ctx=ast.Load()),
                         args=[ast.Call(func=_name("locals"), args=[], keywords=[])], keywords=[])
        if names:
            # only rebinds if the loop is cut
            head.append(ast.If(test=value, body=[ast.Assign(
                targets=[ast.Tuple(elts=[_name(n, True) for n in names], ctx=ast.Store())],
                value=ast.Attribute(value=_name(lv), attr="new", ctx=ast.Load()))], orelse=[]))
        else:
            head.append(ast.Expr(value=value))
        end: List[ast.stmt] = ([ast.Expr(ast.Call(func=ast.Attribute(value=_name(lv), attr="leave", ctx=ast.Load()), args=[], keywords=[]))]
                               + self._body(node.orelse) + [ast.Break()])
        if is_for:
            nx: ast.expr
            if isinstance(node, ast.AsyncFor):
                nx = ast.Await(value=_call("_dv_anext", _name(iv)))
                stop = "StopAsyncIteration"
            else:
                nx = _call("_dv_next", _name(iv))
                stop = "StopIteration"
            # the target is bound outside of the try, and the exception is not propagating when the loop is left
            head += [
                ast.Assign(targets=[_name(cv, True)], value=ast.Constant(False)),
                ast.Try(body=[ast.Assign(targets=[_name(iv + "v", True)], value=nx)],
                        handlers=[ast.ExceptHandler(type=_name("_dv_" + stop), name=None,
                                                    body=[ast.Assign(targets=[_name(cv, True)], value=ast.Constant(True))])],
                        orelse=[], finalbody=[]),
                ast.If(test=_name(cv), body=end, orelse=[]),
                ast.Assign(targets=[node.target], value=_name(iv + "v")),
            ]
        else:
            head.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.visit(node.test)), body=end, orelse=[]))
        body = head + self._body(node.body)
        loop = ast.While(test=ast.Constant(True), body=body, orelse=[])
        return [ast.copy_location(x, node) for x in pre + [loop]]

    visit_While = visit_For = visit_AsyncFor = _loop

    # --- expressions
    def _comp(self, node: Any) -> Any:
        """[e for t in xs if c] becomes _dv_comp(kind, xs, lambda it: [e for t in it if c], lambda t: (e, c))"""
        gen = node.generators
        kind = type(node).__name__
        walk = [x for x in ast.walk(node)]
        if len(gen) != 1 or gen[0].is_async or any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Yield, ast.YieldFrom)) for x in walk) or (
                any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in walk)):
            return self.generic_visit(node)
        g = gen[0]
        it = self.visit(g.iter)
        import copy
        ifs = [self.visit(x) for x in g.ifs]
        if kind == "DictComp":
            node.key, node.value = self.visit(node.key), self.visit(node.value)
            elt: ast.expr = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        else:
            node.elt = self.visit(node.elt)
            elt = node.elt
        cond = ast.Call(func=_name("_dv_all"), args=[ast.Tuple(elts=[ast.Lambda(args=_noargs(), body=x) for x in ifs], ctx=ast.Load())], keywords=[])
        one = ast.Subscript(value=ast.ListComp(
            elt=ast.Tuple(elts=[copy.deepcopy(elt), copy.deepcopy(cond)], ctx=ast.Load()),
            generators=[ast.comprehension(target=copy.deepcopy(g.target), iter=ast.List(elts=[_name("_dv_x")], ctx=ast.Load()), ifs=[], is_async=0)]),
            slice=ast.Constant(0), ctx=ast.Load())
        g.ifs = ifs
        g.iter = _name("_dv_x")
        return ast.copy_location(_call("_dv_comp", ast.Constant(kind), it, ast.Lambda(args=_arg("_dv_x"), body=node),
                                       ast.Lambda(args=_arg("_dv_x"), body=one)), node)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Call(self, node: ast.Call) -> Any:
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars") and not node.args:
            return node
        node = self.generic_visit(node)
        for x in node.args:
            if isinstance(x, ast.Starred):
                x.value = _call("_dv_star", x.value)
        return ast.copy_location(ast.Call(func=_name("_dv_call"), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Subscript(self, node: ast.Subscript) -> Any:
        node = self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        sl: ast.expr = node.slice
        if isinstance(sl, ast.Slice):
            sl = ast.Call(func=_name("_dv_slice"), args=[sl.lower or ast.Constant(None), sl.upper or ast.Constant(None),
                                                          sl.step or ast.Constant(None)], keywords=[])
        return ast.copy_location(_call("_dv_getitem", node.value, sl), node)

    def visit_Compare(self, node: ast.Compare) -> Any:
        node = self.generic_visit(node)
        special = (ast.In, ast.NotIn, ast.Is, ast.IsNot)
        if not any(isinstance(o, special) for o in node.ops):
            return node
        if len(node.ops) > 1:
            return ast.copy_location(_call("_dv_chain"), node)
        f = {ast.In: "_dv_in", ast.NotIn: "_dv_notin", ast.Is: "_dv_is", ast.IsNot: "_dv_isnot"}[type(node.ops[0])]
        return ast.copy_location(_call(f, node.left, node.comparators[0]), node)

    def visit_JoinedStr(self, node: ast.JoinedStr) -> Any:
        parts: List[ast.expr] = []
        for x in node.values:
            if isinstance(x, ast.FormattedValue):
                spec = self.visit(x.format_spec) if x.format_spec else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(x.value), ast.Constant(x.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(x)
        return ast.copy_location(_call("_dv_fmt", *parts), node)


# ------------------------------------------------------------------ hooks

def has_sym(args: Any, depth: int = 2) -> bool:
    for a in args:
        if isinstance(a, Symbolic):
            return True
        if depth and type(a) in (list, tuple, set, frozenset) and has_sym(a, depth - 1):
            return True
        if depth and type(a) is dict and has_sym(a.values(), depth - 1):
            return True
    return False


BUILTIN_TYPES = (pytypes.BuiltinFunctionType, pytypes.MethodWrapperType, pytypes.WrapperDescriptorType,
                 pytypes.MethodDescriptorType, pytypes.ClassMethodDescriptorType)


def dv_call(f: Any, /, *a: Any, **k: Any) -> Any:
    c = core.CTX
    if c is None or not c.symbolic:
        return f(*a, **k)
    t = type(f)
    if t is pytypes.FunctionType or t is pytypes.MethodType:
        fn = f if t is pytypes.FunctionType else f.__func__
        g = getattr(fn, "__globals__", None)
        if g is not None and "_dv_shadow__" in g:
            c.executed.add(f"{g['__name__'].split('.', 2)[-1]}.{fn.__qualname__}")
            return f(*a, **k)
        if getattr(fn, "__module__", "").startswith(("dv.", "contracts")) or fn.__module__ in APPROVED:
            return f(*a, **k)
        if isinstance(getattr(f, "__self__", None), Symbolic) or getattr(fn, "_dv_ok__", False):
            return f(*a, **k)
        if has_sym(a) or has_sym(k.values()):
            raise Unsupported(f"{fn.__module__}.{fn.__qualname__} called with a symbolic value")
        return f(*a, **k)
    if isinstance(f, enum.EnumMeta) and a and is_sym(a[0]):
        return sym.make_enum(f, a[0])
    if isinstance(f, _Meta):
        return f(*a, **k)
    if isinstance(f, type):
        if f in BASIC and (has_sym(a) or has_sym(k.values())):
            raise Unsupported(f"{f.__name__}() of a symbolic value")
        return f(*a, **k)
    if isinstance(f, BUILTIN_TYPES):
        if not (has_sym(a) or has_sym(k.values())):
            return f(*a, **k)
        me = getattr(f, "__self__", None)
        name = getattr(f, "__name__", "")
        if isinstance(me, BaseException) and name in ("__init__", "with_traceback"):
            return f(*a, **k)
        if isinstance(me, (bytes, str)):
            s = (SBytes if isinstance(me, bytes) else SStr).of(me)
            m = getattr(type(s), name, None)
            if m is None:
                raise Unsupported(f"{type(me).__name__}.{name}")
            return m(s, *a, **k)
        if isinstance(me, list) and name in ("append", "insert", "pop", "extend", "clear", "copy", "reverse"):
            if name == "extend" and isinstance(a[0], (SAccum, SList)):
                raise Unsupported("extend by a symbolic list")
            if name == "pop" and is_sym(a[0]):
                raise Unsupported("pop at a symbolic index")
            return f(*a, **k)
        if isinstance(me, dict):
            return dict_method(me, name, a, k)
        if isinstance(me, set):
            if name in ("add", "discard", "remove"):
                raise Unsupported(f"set.{name} of a symbolic value")
        if name in ("send", "throw", "asend", "athrow", "__anext__", "__next__", "close"):
            return f(*a, **k)
        if name in ("set", "reset") and type(me).__name__ == "ContextVar":
            c.state.setdefault("contextvars", []).append((me.name, a))
            return None
        raise Unsupported(f"{getattr(f, '__qualname__', name)} called with a symbolic value")
    return f(*a, **k)


APPROVED = {"typing", "dataclasses", "contextlib", "functools", "enum", "copy"}
BASIC = {int, float, complex, range, enumerate, zip, map, filter, slice, frozenset, set, memoryview, bytearray, bytes, str}


def dict_method(d: dict, name: str, a: tuple, k: dict) -> Any:
    if name in ("get", "pop", "setdefault", "__getitem__"):
        key = a[0]
        if not is_sym(key):
            return getattr(d, name)(*a, **k)
        for x in list(d):
            if eq_key(key, x):
                return d[x] if name != "pop" else d.pop(x)
        if name == "__getitem__" or name == "pop" and len(a) < 2:
            raise KeyError(key)
        if name == "setdefault":
            if type(key) is not SInt:
                raise Unsupported("setdefault of a symbolic key")
            key = sym.KeyInt(key._z3)
            dict.__setitem__(d, key, a[1] if len(a) > 1 else None)
            return d[key]
        return a[1] if len(a) > 1 else k.get("default")
    if name in ("update", "items", "keys", "values", "copy"):
        return getattr(d, name)(*a, **k)
    raise Unsupported(f"dict.{name} of a symbolic value")


def eq_key(a: Any, b: Any) -> bool:
    r = a == b
    return bool(r)


def dv_comp(kind: str, xs: Any, whole: Callable, one: Callable) -> Any:
    c = core.CTX
    if c is None or not c.symbolic or c.bounded or not is_sym(xs) or not sym_len(xs):
        return whole(dv_iter(xs) if is_sym(xs) else xs)
    it = dv_iter(xs)
    hook = c.state.get("comprehension:" + kind)
    if hook is not None:
        return hook(it, one)
    if kind in ("ListComp", "GeneratorExp"):
        # without a condition there is an element per item
        probe = SComp(kind, it, one)
        if probe.plain():
            return SList(it.n(), lambda i: one(it.item(i))[0])
    return SComp(kind, it, one)


class SComp(Symbolic):
    """A comprehension over a sequence of unknown length: item i gives (element, is it in?)"""
    __slots__ = ("kind", "it", "one", "start")

    def __init__(self, kind: str, it: Any, one: Callable):
        self.kind, self.it, self.one, self.start = kind, it, one, it.k

    def plain(self) -> bool:
        return self.one.__code__.co_consts is not None and "_dv_all" in _names(self.one.__code__) and not _conds(self.one.__code__)

    def n(self) -> Any:
        return wrap(term(self.it.n()))

    def at(self, i: Any) -> Any:
        return self.one(self.it.item(term(i)))

    def __iter__(self) -> Any:
        if self.kind != "GeneratorExp":
            raise Unsupported("iteration over an abstract comprehension")
        return self

    def __next__(self) -> Any:
        """The first item that fulfils the condition, or there is none"""
        c = ctx()
        q = z3.Int(c.fresh_name("q"))
        before = len(c.trace)
        t = sym.truth(self.at(q)[1])
        if len(c.trace) != before:
            raise Unsupported("next() of a generator whose condition takes decisions")
        found = c.decide(2, lambda i: True) == 0
        end = z3.Int(c.fresh_name("first")) if found else term(self.it.n())
        c.assume(wrap(z3.ForAll([q], z3.Implies(z3.And(q >= term(self.start), q < end), z3.Not(t)))))
        if not found:
            self.start = end
            raise StopIteration
        c.assume(wrap(z3.And(end >= term(self.start), end < term(self.it.n()), z3.substitute(t, (q, end)))))
        self.start = z3.simplify(end + 1)
        return self.at(end)[0]

    def __eq__(self, o: Any) -> Any:
        raise Unsupported("== of an abstract comprehension")

    __hash__ = Symbolic.__hash__


def _names(code: Any) -> set:
    out = set(code.co_names)
    for x in code.co_consts:
        if isinstance(x, pytypes.CodeType):
            out |= _names(x)
    return out


def _conds(code: Any) -> bool:
    """Does the comprehension have conditions?  (they are lambdas in a tuple)"""
    return any(isinstance(x, pytypes.CodeType) and (x.co_name == "<lambda>" or _conds(x)) for x in code.co_consts)


def dv_all(conds: tuple) -> Any:
    if len(conds) == 1:
        x = conds[0]()
        return x if type(x) is SBool else bool(x)
    for f in conds:
        if not f():
            return False
    return True


def dv_star(x: Any) -> Any:
    """The argument of f(*x)"""
    return [sym.AccItems(x)] if isinstance(x, SAccum) else x


def dv_getitem(o: Any, k: Any) -> Any:
    if isinstance(o, Symbolic) or not (is_sym(k) or isinstance(k, slice) and has_sym((k.start, k.stop, k.step))):
        return o[k]
    if isinstance(o, (bytes, str)):
        return (SBytes if isinstance(o, bytes) else SStr).of(o)[k]
    if isinstance(o, (list, tuple)):
        if isinstance(k, slice):
            return o[slice(*(x if not is_sym(x) else sym.concretise_int(x, "slice") for x in (k.start, k.stop, k.step)))]
        return o[sym.concretise_int(k, "index")]
    if isinstance(o, dict):
        return dict_method(o, "__getitem__", (k,), {})
    if isinstance(o, type) and not isinstance(o, enum.EnumMeta):
        return o[k]
    if isinstance(o, enum.EnumMeta):
        f = getattr(k, "_enum_item", None)
        if f:
            return f(o)
        if isinstance(k, sym.SCharsetName):
            return k.charset
        raise Unsupported(f"{o.__name__}[symbolic]")
    return o[k]


def dv_slice(a: Any, b: Any, c: Any) -> slice:
    return slice(a, b, c)


def dv_in(x: Any, c: Any) -> Any:
    if isinstance(c, Symbolic):
        f = getattr(type(c), "_contains", None)
        if f is None:
            if hasattr(type(c), "__contains__"):
                return x in c
            raise Unsupported(f"in {type(c).__name__}")
        return f(c, x)
    if not is_sym(x):
        if has_sym(c if isinstance(c, (list, tuple)) else ()):
            return Or(*[y is x or y == x for y in c])
        return x in c
    if isinstance(c, (str, bytes)):
        if isinstance(x, SStr) and isinstance(c, str):
            n = num(x._len_term())
            if n is None and not ctx().entails(x._len_term() <= 1):
                raise Unsupported("in a text")
            if n is not None and n > 1:
                raise Unsupported("in a text")
            ch = x._at(z3.IntVal(0))
            return wrap(z3.Or(x._len_term() == 0, z3.Or([ch == ord(y) for y in sorted(set(c))] or [z3.BoolVal(False)])))
        if isinstance(x, SInt) and isinstance(c, bytes):
            return wrap(z3.Or([x._z3 == y for y in sorted(set(c))] or [z3.BoolVal(False)]))
        raise Unsupported("in")
    if isinstance(c, (list, tuple, set, frozenset, dict)) or type(c).__name__ in ("dict_keys", "dict_values"):
        conds = []
        for y in c:
            r = y is x or x == y
            conds.append(r)
        return Or(*conds) if conds else False
    if isinstance(c, enum.Flag):
        return SFlags.of(type(c), c)._contains(x)
    if isinstance(c, range):
        if c.step == 1:
            return And(x >= c.start, x < c.stop)
    return x in c


def dv_notin(x: Any, c: Any) -> Any:
    return Not(dv_in(x, c))


def dv_is(a: Any, b: Any) -> Any:
    if isinstance(a, SBool) and isinstance(b, bool):
        return wrap(a._z3 if b else z3.Not(a._z3))
    if isinstance(b, SBool) and isinstance(a, bool):
        return wrap(b._z3 if a else z3.Not(b._z3))
    if isinstance(a, (SEnum, SFlags)) and isinstance(b, enum.Enum) or isinstance(b, (SEnum, SFlags)) and isinstance(a, enum.Enum):
        return a == b if isinstance(a, (SEnum, SFlags)) else b == a
    for x, y in ((a, b), (b, a)):
        f = getattr(type(x), "_is", None)
        if f is not None and isinstance(x, Symbolic):
            return f(x, y)
    if isinstance(a, sym.Poison) or isinstance(b, sym.Poison):
        raise Unsupported("a local that a loop may have changed")
    return a is b


def dv_isnot(a: Any, b: Any) -> Any:
    return Not(dv_is(a, b)) if is_sym(a) or is_sym(b) else a is not b


def dv_chain(*a: Any) -> Any:
    raise Unsupported("a chained comparison with in or is")


def dv_fmt(*parts: Any) -> Any:
    out = []
    for p in parts:
        if isinstance(p, tuple):
            out.append(sym.to_fmt(*p))
        else:
            out.append(p)
    if any(is_sym(x) for x in out):
        return SStr.cat(out)
    return "".join(out)


# --- loops

class Loop:
    """A loop without invariant is unrolled"""

    def __init__(self, key: str):
        self.key = key
        self.n = 0

    def head(self, loc: dict) -> bool:
        c = core.CTX
        if c is not None and c.symbolic:
            self.n += 1
            if self.n > 5000:
                raise Unsupported(f"{self.key} iterates too often without an invariant")
            c.alive()
        return False

    def leave(self) -> None:
        pass


class LoopView:
    """What an invariant sees: the locals (attributes), the iterator's position k, entry values (old)"""

    def __init__(self, loc: dict, it: Any, entry: dict):
        self.__dict__["_loc"] = loc
        self.__dict__["it"] = it
        self.__dict__["entry"] = entry

    def __getattr__(self, name: str) -> Any:
        try:
            return self._loc[name]
        except KeyError:
            raise Unsupported(f"the invariant needs a local named {name}") from None

    def has(self, name: str) -> bool:
        return name in self._loc


class Invariant:
    """Contract of a loop. havoc(v, L): {local: arbitrary value}, also changes ghost state and heap objects in place;
    inv(v, L): yields (name, condition); variant(v, L): an integer that decreases and is bounded below, or None;
    heap(v, L): the heap objects that havoc has changed"""

    def __init__(self, havoc: Callable, inv: Callable, variant: Optional[Callable] = None, heap: Optional[Callable] = None,
                 exit_: Optional[Callable] = None):
        self.havoc, self.inv, self.variant, self.heap = havoc, inv, variant, heap


class CutLoop:
    def __init__(self, key: str, it: Any, names: Tuple[str, ...], muts: Tuple[str, ...], spec: Invariant):
        self.key, self.it, self.names, self.muts, self.spec = key, it, names, muts, spec
        self.n = 0
        self.new: Tuple = ()

    def head(self, loc: dict) -> bool:
        c = ctx()
        c.alive()
        c.loops_cut.add(self.key)
        self.n += 1
        loc = {k: x for k, x in loc.items() if not k.startswith("_dv_")}
        if self.n == 1:
            self.entry = dict(loc)
            view = LoopView(loc, self.it, self.entry)
            view.__dict__["changed"] = self.names + self.muts
            for name, cond in self.spec.inv(c, view):
                c.check(f"{self.key}: {name} (on entry)", cond, aux=True)
            new = self.spec.havoc(c, view)
            if isinstance(self.it, SymIter):
                self.it.havoc()
            self.declared = set(new)
            for k, x in new.items():
                if k not in self.names and k not in self.muts:
                    raise Unsupported(f"{self.key}: no local {k} that is changed in the loop")
            for n in self.names:
                loc[n] = new[n] if n in new else sym.Poison(n)
            replaced = {}
            for n in self.muts:
                if n in new:
                    replaced[id(loc[n])] = n
                    loc[n] = new[n]
                elif n not in loc:
                    loc[n] = sym.Poison(n)
            self.new = tuple(loc[n] for n in self.names + self.muts)
            view = LoopView(loc, self.it, self.entry)
            for name, cond in self.spec.inv(c, view):
                c.assume(cond)
            if c.sat() == z3.unsat:
                raise Unsupported(f"{self.key}: contradictory invariant")
            self.v0 = self.spec.variant(c, view) if self.spec.variant else None
            self.snap = snapshot(loc, sys._getframe(1), self.names, set(replaced.values()))
            for i, n in replaced.items():
                if i in self.snap:
                    raise Unsupported(f"{self.key}: {n} is also known as {self.snap[i][1]}")
            return True
        view = LoopView(loc, self.it, self.entry)
        for name, cond in self.spec.inv(c, view):
            c.check(f"{self.key}: {name} (preserved)", cond, aux=True)
        if self.spec.variant:
            v1 = self.spec.variant(c, view)
            c.check(f"{self.key}: terminates", And(v1 < self.v0, self.v0 >= 0) if not isinstance(self.v0, tuple)
                    else lex(v1, self.v0), aux=True)
        allowed = {id(x) for x in (self.spec.heap(c, view) if self.spec.heap else ())}
        if isinstance(self.it, SymIter):
            allowed |= {id(self.it)}
        allowed |= {id(x) for x in self.new if getattr(type(x), "_mutable", False)}
        changed = compare(self.snap, snapshot(loc, sys._getframe(1), self.names), allowed)
        if changed:
            c.undecided.append(f"{self.key}: the loop changes {changed}, which its invariant doesn't mention")
        c.end()
        return False

    def leave(self) -> None:
        ctx().alive()


TRANSPARENT = object()  # of a loop over a generator of the code, whose own loops are cut


class TransparentLoop:
    """A loop that carries no state from one iteration to the next, over a generator whose loops are cut: it is unrolled, and what
    happens in an arbitrary iteration of the generator's loop is judged there"""

    def __init__(self, key: str, it: Any, names: Tuple[str, ...], muts: Tuple[str, ...]):
        self.key, self.it, self.names, self.muts = key, it, names, muts
        self.n = 0
        self.snap: Optional[dict] = None
        self.new: Tuple = ()

    def head(self, loc: dict) -> bool:
        c = ctx()
        c.alive()
        self.n += 1
        if self.n > 60:
            raise Unsupported(f"{self.key} iterates too often without an invariant")
        loc = {k: x for k, x in loc.items() if not k.startswith("_dv_")}
        snap = snapshot({k: x for k, x in loc.items() if k not in self.names}, sys._getframe(1), self.names)
        if self.snap is not None:
            allowed = {i for i, (o, _, _) in self.snap.items() if getattr(type(o), "_mutable", False)}
            changed = compare(self.snap, snap, allowed)
            if changed:
                raise Unsupported(f"{self.key}: an iteration changes {changed}")
        self.snap = snap
        self.new = tuple([sym.Poison(n) for n in self.names] + [loc.get(n, sym.Poison(n)) for n in self.muts])
        return True

    def leave(self) -> None:
        ctx().alive()


def is_generator(it: Any) -> bool:
    """Of the code"""
    f = it.gi_frame if isinstance(it, pytypes.GeneratorType) else it.ag_frame if isinstance(it, pytypes.AsyncGeneratorType) else None
    return f is not None and "_dv_shadow__" in f.f_globals


def lex(a: Any, b: Any) -> Any:
    r: Any = False
    for x, y in reversed(list(zip(a, b))):
        r = Or(And(x < y, y >= 0), And(x == y, r))
    return r


def dv_loop(key: str, it: Any, names: Tuple[str, ...], muts: Tuple[str, ...] = ()) -> Any:
    c = core.CTX
    if c is not None and c.symbolic:
        spec = c.unit.loops.get(key) or c.unit.loops.get("*")
        if spec is not None and not c.bounded:
            s = spec(c, it) if callable(spec) else spec
            if s is TRANSPARENT:
                return TransparentLoop(key, it, names, muts)
            if s is not None:
                return CutLoop(key, it, names, muts, s)
    return Loop(key)


# --- the heap, for the frame of a cut loop

ATOMS = (int, float, str, bytes, bool, type(None), type, pytypes.FunctionType, pytypes.ModuleType, pytypes.BuiltinFunctionType,
         pytypes.CodeType, enum.Enum, complex, slice, range)


def content(o: Any) -> Optional[list]:
    """(label, value) of what a mutable object refers to; None for immutable ones"""
    if isinstance(o, ATOMS) and not isinstance(o, Symbolic) or z3.is_expr(o) or isinstance(o, sym.Poison):
        return None
    t = type(o)
    if t in (list, tuple):
        return list(enumerate(o))
    if t is dict:
        return list(o.items())
    if t in (set, frozenset):
        return [(i, x) for i, x in enumerate(sorted(o, key=id))]
    if t is pytypes.MethodType:
        return [("__self__", o.__self__)]
    out = []
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict):
        out += list(d.items())
    for cl in t.__mro__:
        for s in cl.__dict__.get("__slots__", ()) if isinstance(cl.__dict__.get("__slots__", ()), (tuple, list)) else ():
            try:
                out.append((s, object.__getattribute__(o, s)))
            except AttributeError:
                pass
    return out


def snapshot(loc: dict, frame: Any, names: Tuple[str, ...], rebound: Any = ()) -> Dict[int, Tuple[Any, str, list]]:
    seen: Dict[int, Tuple[Any, str, list]] = {}
    todo: List[Tuple[Any, str]] = [(x, k) for k, x in loc.items()]
    f = frame.f_back
    while f is not None:
        if "_dv_shadow__" in f.f_globals:
            todo += [(x, k) for k, x in f.f_locals.items() if not k.startswith("_dv_")]
        f = f.f_back
    c = ctx()
    todo += [(x, "ghost " + str(k)) for k, x in c.state.items()]
    while todo:
        o, path = todo.pop()
        if id(o) in seen or isinstance(o, (core.Base, core.Unit, Loop, CutLoop, LoopView)):
            continue
        if path.count(".") > 12 or len(seen) > 20000:
            continue
        cs = content(o)
        if cs is None:
            continue
        seen[id(o)] = (o, path, [(k, x) for k, x in cs])
        if isinstance(o, SSeq):
            continue
        for k, x in cs:
            todo.append((x, f"{path}.{k}"))
    return seen


def compare(a: dict, b: dict, allowed: set) -> List[str]:
    out = []
    for i, (o, path, cs) in a.items():
        if i in allowed or isinstance(o, (SSeq, SBool, SInt)) or type(o) is tuple:
            continue
        if i not in b:
            # no longer reachable from here: compare with its present content
            now = content(o) or []
        else:
            now = b[i][2]
        if len(now) != len(cs) or any(k1 != k2 or (x1 is not x2 and not same_atom(x1, x2)) for (k1, x1), (k2, x2) in zip(cs, now)):
            diff = [str(k1) for (k1, x1), (k2, x2) in zip(cs, now) if x1 is not x2 and not same_atom(x1, x2)]
            out.append(f"{path} ({', '.join(diff)})")
    return out


def same_atom(x: Any, y: Any) -> bool:
    if z3.is_expr(x) and z3.is_expr(y):
        return x.eq(y)
    if isinstance(x, (bool, int, str, bytes)) and not is_sym(x):
        return type(x) is type(y) and x == y
    if isinstance(x, pytypes.MethodType) and isinstance(y, pytypes.MethodType):
        return x == y
    return False


# --- iteration

class SymIter(Symbolic):
    """Iterator over a sequence of unknown length; the position is the ghost variable k"""
    __slots__ = ("seq", "k", "index")
    _mutable = True

    def __init__(self, seq: Any, index: Any = None):
        self.seq = seq
        self.k: Any = 0
        self.index = index  # function of the position to the item

    def n(self) -> Any:
        return self.seq._len_term()

    def item(self, i: Any) -> Any:
        if self.index:
            return self.index(i)
        s = self.seq
        return s._element(i) if isinstance(s, SSeq) else s._get(i) if isinstance(s, SList) else s._element(term(i))

    def havoc(self) -> None:
        c = ctx()
        k = sym.ctx_fresh("k")
        c.add(z3.And(k >= 0, k <= self.n()))
        self.k = k

    def __iter__(self) -> Any:
        return self

    def __next__(self) -> Any:
        if sym.lt(self.k, self.n()):
            x = self.item(self.k)
            self.k = sym.plus(self.k, 1)
            return x
        raise StopIteration


class RangeSeq(Symbolic):
    """range(a, b) with symbolic bounds"""
    __slots__ = ("a", "b")

    def __init__(self, a: Any, b: Any):
        self.a, self.b = a, b

    def _len_term(self) -> Any:
        d = term(self.b) - term(self.a)
        return sym.simp(z3.If(d > 0, d, 0))

    def _element(self, i: Any) -> Any:
        return wrap(term(self.a) + i)

    def length(self) -> Any:
        return wrap(self._len_term())

    def __iter__(self) -> Any:
        return SymIter(self)

    def _contains(self, x: Any) -> Any:
        return And(x >= wrap(term(self.a)), x < wrap(term(self.b)))


def sym_len(x: Any) -> bool:
    """A sequence whose length isn't known"""
    if isinstance(x, (SBytes, SStr, SList, RangeSeq)):
        return num(x._len_term()) is None
    if isinstance(x, SymIter):
        return True
    return isinstance(x, Symbolic) and hasattr(type(x), "_sym_iter")


def dv_iter(x: Any) -> Any:
    if isinstance(x, SymIter):
        return x
    if isinstance(x, (SSeq, SList, RangeSeq)):
        n = num(x._len_term())
        if n is None:
            return SymIter(x)
        return iter([SymIter(x).item(z3.IntVal(i)) for i in range(n)])
    if isinstance(x, Symbolic) and hasattr(type(x), "_sym_iter"):
        return x._sym_iter()
    return builtins.iter(x)


def dv_next(it: Any) -> Any:
    return builtins.next(it)


def dv_aiter(x: Any) -> Any:
    return type(x).__aiter__(x)


def dv_anext(it: Any) -> Any:
    return it.__anext__()


# ------------------------------------------------------------------ builtins

class _Meta(type):
    """isinstance and call of a replaced builtin class"""

    def __instancecheck__(cls, x: Any) -> bool:
        return isinstance(x, cls._real) or isinstance(x, cls._sym) and not isinstance(x, cls._not)

    def __subclasscheck__(cls, c: Any) -> bool:
        return c is cls or issubclass(c, cls._real)

    def __call__(cls, *a: Any, **k: Any) -> Any:
        return cls._make(*a, **k)

    def __eq__(cls, o: Any) -> bool:
        return o is cls or o is cls._real

    def __hash__(cls) -> int:
        return hash(cls._real)

    def __or__(cls, o: Any) -> Any:
        return cls._real | (o._real if isinstance(o, _Meta) else o)

    def __ror__(cls, o: Any) -> Any:
        return o | cls._real

    def __getattr__(cls, name: str) -> Any:
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(cls._real, name)


class bytes_(metaclass=_Meta):
    _real, _sym, _not = bytes, SBytes, ()

    @staticmethod
    def _make(*a: Any, **k: Any) -> Any:
        if len(a) == 1 and not k:
            return sym.bytes_of(a[0])
        if len(a) == 2 and is_sym(a[0]):
            return sym.encode(*a)
        return bytes(*a, **k)

    @staticmethod
    def fromhex(s: Any) -> Any:
        f = getattr(s, "_fromhex", None) if is_sym(s) else None
        if f:
            return f()
        if is_sym(s):
            return ctx().state["fromhex"](s)
        return bytes.fromhex(s)


class bytearray_(metaclass=_Meta):
    _real, _sym, _not = bytearray, SByteArray, ()

    @staticmethod
    def _make(*a: Any) -> Any:
        return SByteArray(sym.bytes_of(a[0]) if a else b"")


class int_(metaclass=_Meta):
    _real, _sym, _not = int, (SInt, SBool, SEnum, SFlags), ()

    @staticmethod
    def _make(*a: Any, **k: Any) -> Any:
        if a and is_sym(a[0]):
            x = a[0]
            if isinstance(x, SBool):
                return SInt(x._int())
            if isinstance(x, (SInt, SEnum, SFlags)):
                return SInt(term(x))
            f = getattr(type(x), "_to_int", None)
            if f:
                return f(x, *a[1:])
            g = ctx().state.get("int_of_text")
            if g is not None and isinstance(x, SStr):
                return g(x, *a[1:])
            if isinstance(x, SStr) and (len(a) == 1 or a[1] == 10):
                return regex.digits(x)
            raise Unsupported(f"int() of {type(x).__name__}")
        return int(*a, **k)

    @staticmethod
    def from_bytes(b: Any, byteorder: str = "big", *, signed: bool = False) -> Any:
        if is_sym(b):
            return sym.int_from_bytes(b, byteorder, signed)
        return int.from_bytes(b, byteorder, signed=signed)


class bool_(metaclass=_Meta):
    _real, _sym, _not = bool, SBool, ()

    @staticmethod
    def _make(*a: Any) -> Any:
        if a and is_sym(a[0]):
            x = a[0]
            if isinstance(x, (SBool, SInt, SSeq)):
                return wrap(sym.truth(x))
            return bool(x)
        return bool(*a)


class str_(metaclass=_Meta):
    _real, _sym, _not = str, SStr, ()

    @staticmethod
    def _make(*a: Any, **k: Any) -> Any:
        if a and is_sym(a[0]):
            return sym.to_str(a[0])
        if a and len(a) == 1 and isinstance(a[0], BaseException):
            e = a[0]
            if len(e.args) == 1 and is_sym(e.args[0]):
                return sym.to_str(e.args[0])
            if any(is_sym(x) for x in e.args):
                raise Unsupported("str of an exception")
        if len(a) == 1 and hasattr(type(a[0]), "_str"):
            return type(a[0])._str(a[0])
        return str(*a, **k)


class SFloat(Symbolic):
    """A float: opaque, its IEEE encodings are unspecified functions with an inverse"""
    __slots__ = ("_z3",)

    def __init__(self, t: Any):
        self._z3 = t

    def __eq__(self, o: Any) -> Any:
        if isinstance(o, SFloat):
            return wrap(self._z3 == o._z3)
        raise Unsupported("== of a float")

    def _str(self) -> Any:
        """The shortest text that reads back as the same float (CPython), opaque"""
        c = core.ctx()
        key = ("float text", self._z3.get_id())
        if key not in c.memo:
            s = SStr.new("float", nonul=True)
            c.add(s._len_term() >= 3)
            p = s.pieces[0]
            c.memo[key] = (SStr([sym.Piece(p.len, p.at, key=("float", self._z3), nonul=True, tok=("ascii",))]), self._z3)
        return c.memo[key][0]

    __hash__ = Symbolic.__hash__


class float_(metaclass=_Meta):
    _real, _sym, _not = float, SFloat, ()

    @staticmethod
    def _make(*a: Any) -> Any:
        if a and is_sym(a[0]):
            if isinstance(a[0], SFloat):
                return a[0]
            raise Unsupported("float()")
        return float(*a)


class range_(metaclass=_Meta):
    _real, _sym, _not = range, RangeSeq, ()

    @staticmethod
    def _make(*a: Any) -> Any:
        if has_sym(a):
            if len(a) > 2:
                raise Unsupported("range with a step")
            lo, hi = (0, a[0]) if len(a) == 1 else a
            r = RangeSeq(lo, hi)
            n = num(r._len_term())
            if n is not None:
                return [r._element(z3.IntVal(i)) for i in range(n)]
            return r
        return range(*a)


class EnumerateSeq(Symbolic):
    __slots__ = ("it", "start")

    def __init__(self, it: Any, start: Any):
        self.it, self.start = it, start

    def _sym_iter(self) -> Any:
        it = self.it
        return SymIter(it.seq, index=lambda i: (wrap(term(self.start) + term(i)), it.item(i)))


class enumerate_(metaclass=_Meta):
    _real, _sym, _not = enumerate, EnumerateSeq, ()

    @staticmethod
    def _make(x: Any, start: Any = 0) -> Any:
        it = dv_iter(x) if is_sym(x) else x
        if isinstance(it, SymIter):
            return EnumerateSeq(it, start)
        return enumerate(it, start)


class ZipSeq(Symbolic):
    __slots__ = ("its",)

    def __init__(self, its: List[Any]):
        self.its = its

    def _len_term(self) -> Any:
        n = self.its[0].n()
        for i in self.its[1:]:
            m = i.n()
            n = z3.If(m < n, m, n)
        return sym.simp(n)

    def _sym_iter(self) -> Any:
        c = ctx()
        for i in self.its[1:]:
            if not c.entails(i.n() == self.its[0].n()):
                raise Unsupported("zip of sequences with different lengths")
        return SymIter(self.its[0].seq, index=lambda i: tuple(t.item(i) for t in self.its))


class zip_(metaclass=_Meta):
    _real, _sym, _not = zip, ZipSeq, ()

    @staticmethod
    def _make(*a: Any, **k: Any) -> Any:
        its = [dv_iter(x) if is_sym(x) else x for x in a]
        if any(isinstance(i, SymIter) for i in its):
            if not all(isinstance(i, SymIter) for i in its):
                # a concrete sequence bounds the length
                raise Unsupported("zip of a symbolic and a concrete sequence")
            return ZipSeq(its)
        return zip(*its, **k)


def len_(x: Any) -> Any:
    if isinstance(x, (SSeq, SByteArray, SList, RangeSeq)):
        return x.length()
    if is_sym(x):
        f = getattr(type(x), "length", None)
        if f:
            return f(x)
        raise Unsupported(f"len() of {type(x).__name__}")
    return len(x)


def iter_(x: Any, *a: Any) -> Any:
    return dv_iter(x) if not a else iter(x, *a)


def _quantified(xs: Any, all_of: bool) -> Any:
    """all()/any() of a sequence of unknown length, if its elements are functions of the position"""
    c = core.CTX
    if c is None or not c.symbolic or c.bounded or not isinstance(xs, SList) or num(xs._len_term()) is not None or xs.tail:
        return None
    q = z3.Int(c.fresh_name("q"))
    before = len(c.trace)
    t = sym.truth(xs._get(q))
    if len(c.trace) != before:
        raise Unsupported("all() or any() of elements that take decisions")
    t = t if all_of else z3.Not(t)
    n = xs._len_term()
    if c.decide(2, lambda i: True) == 0:
        c.assume(wrap(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), t))))
        return all_of
    j = z3.Int(c.fresh_name("some"))
    c.assume(wrap(z3.And(j >= 0, j < n, z3.Not(z3.substitute(t, (q, j))))))
    return not all_of


def any_(xs: Any) -> Any:
    r = _quantified(xs, False)
    if r is not None:
        return r
    for x in dv_iter(xs):
        if x:
            return True
    return False


def all_(xs: Any) -> Any:
    r = _quantified(xs, True)
    if r is not None:
        return r
    for x in dv_iter(xs):
        if not x:
            return False
    return True


def list_(*a: Any) -> Any:
    if a and is_sym(a[0]) and sym_len(a[0]):
        if isinstance(a[0], SList):
            return a[0]._frozen()
        if hasattr(type(a[0]), "_sym_copy"):
            return a[0]._sym_copy()
        raise Unsupported("list() of a symbolic sequence")
    return [x for x in dv_iter(a[0])] if a else []


class list__(metaclass=_Meta):
    _real, _sym, _not = list, (SList, SAccum), ()
    _make = staticmethod(list_)


class tuple__(metaclass=_Meta):
    _real, _sym, _not = tuple, (), ()

    @staticmethod
    def _make(*a: Any) -> Any:
        return tuple(list_(*a)) if a else ()


def _minmax(name: str) -> Callable:
    real = getattr(builtins, name)

    def f(*a: Any, **k: Any) -> Any:
        if len(a) == 1 and not is_sym(a[0]):
            xs = list(a[0])
            if not xs:
                return real(xs, **k)
            k.pop("default", None)
        elif len(a) == 1:
            raise Unsupported(name)
        else:
            xs = list(a)
        if not has_sym(xs):
            return real(xs, **k)
        if k:
            raise Unsupported(f"{name} with options")
        r = xs[0]
        for x in xs[1:]:
            r = wrap(z3.If(term(x) < term(r) if name == "min" else term(x) > term(r), term(x), term(r)))
        return r
    f.__name__ = name
    return f


def sum_(xs: Any, start: Any = 0) -> Any:
    r = start
    for x in dv_iter(xs):
        r = r + x
    return r


def divmod_(a: Any, b: Any) -> Any:
    if is_sym(a) or is_sym(b):
        return a // b, a % b
    return divmod(a, b)


def abs_(x: Any) -> Any:
    return abs(x)


def type_(*a: Any) -> Any:
    if len(a) == 1 and is_sym(a[0]):
        x = a[0]
        for cl, r in ((SBytes, bytes), (SStr, str), (SInt, int), (SBool, bool), (SByteArray, bytearray), (SFloat, float)):
            if isinstance(x, cl):
                return r
        k = x.__class__
        if k is not type(x):
            return k
        raise Unsupported(f"type of {type(x).__name__}")
    return type(*a)


def hash_(x: Any) -> Any:
    return hash(x)


def chr_(x: Any) -> Any:
    if is_sym(x):
        if not ctx().branch(z3.And(term(x) >= 0, term(x) < 0x110000)):
            raise ValueError("chr() arg not in range(0x110000)")
        t = term(x)
        return SStr([sym.p_fun(lambda i: t, 1)])
    return chr(x)


def ord_(x: Any) -> Any:
    if is_sym(x):
        if not ctx().branch(x._len_term() == 1):
            raise TypeError("ord() expected a character")
        return wrap(x._at(z3.IntVal(0)))
    return ord(x)


def hex_(x: Any) -> Any:
    if is_sym(x):
        return sym.text_fn("hex", SStr.of(sym.fmt_int(x)))
    return hex(x)


def next_(it: Any, *default: Any) -> Any:
    if is_sym(it) and not hasattr(type(it), "__next__"):
        raise Unsupported(f"next() of {type(it).__name__}")
    return builtins.next(it, *default)


def repr_(x: Any) -> Any:
    if is_sym(x):
        raise Unsupported("repr()")
    return repr(x)


def format_(x: Any, spec: str = "") -> Any:
    return sym.to_fmt(x, -1, spec)


def isinstance_(x: Any, cls: Any) -> bool:
    if isinstance(x, Symbolic):
        f = getattr(type(x), "_isinstance", None)
        if f is not None:
            cs = cls if isinstance(cls, tuple) else (cls,)
            return bool(Or(*[f(x, c) for c in cs]))
    return isinstance(x, cls)


def getattr_(o: Any, name: Any, *d: Any) -> Any:
    return getattr(o, name, *d)


def print_(*a: Any, **k: Any) -> None:
    pass


def sorted_(x: Any, *a: Any, **k: Any) -> Any:
    c = core.CTX
    if c is not None and "stub:sorted" in c.state:
        return c.state["stub:sorted"](x, *a, **k)
    if is_sym(x) and sym_len(x):
        raise Unsupported("sorted() of a sequence of unknown length")
    return sorted(x, *a, **k)


def reversed_(x: Any) -> Any:
    if isinstance(x, SList) and not x.tail:
        n = x._len_term()
        return dv_iter(SList(n, lambda i: x.at(sym.simp(n - 1 - term(i)))))
    if is_sym(x) and sym_len(x):
        raise Unsupported("reversed() of a sequence of unknown length")
    return reversed(x)


BUILTINS = dict(vars(builtins))
BUILTINS.update({
    "bytes": bytes_, "bytearray": bytearray_, "int": int_, "bool": bool_, "str": str_, "float": float_, "range": range_,
    "enumerate": enumerate_, "zip": zip_, "len": len_, "iter": iter_, "any": any_, "all": all_, "list": list__, "tuple": tuple__,
    "min": _minmax("min"), "max": _minmax("max"), "sum": sum_, "divmod": divmod_, "abs": abs_, "type": type_, "chr": chr_,
    "ord": ord_, "hex": hex_, "repr": repr_, "next": next_, "format": format_, "isinstance": isinstance_, "print": print_, "sorted": sorted_, "reversed": reversed_,
    "_dv_call": dv_call, "_dv_star": dv_star, "_dv_comp": dv_comp, "_dv_all": dv_all, "_dv_getitem": dv_getitem, "_dv_slice": dv_slice, "_dv_in": dv_in, "_dv_notin": dv_notin,
    "_dv_is": dv_is, "_dv_isnot": dv_isnot, "_dv_chain": dv_chain, "_dv_fmt": dv_fmt, "_dv_loop": dv_loop,
    "_dv_iter": dv_iter, "_dv_next": dv_next, "_dv_aiter": dv_aiter, "_dv_anext": dv_anext,
    "_dv_StopIteration": StopIteration, "_dv_StopAsyncIteration": StopAsyncIteration,
})


# ------------------------------------------------------------------ standard modules

class Module(pytypes.ModuleType):
    pass


def _proxy(name: str, real: Any, **over: Any) -> Any:
    m = Module(name)
    for k, x in vars(real).items():
        if not k.startswith("__"):
            setattr(m, k, x)
    for k, x in over.items():
        setattr(m, k, x)
    return m


class StructError(real_struct.error):
    pass


CODES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True),
         "L": (4, False), "q": (8, True), "Q": (8, False)}

F32_BITS = z3.Function("f32_bits", z3.IntSort(), z3.IntSort())
F64_BITS = z3.Function("f64_bits", z3.IntSort(), z3.IntSort())
F32_VAL = z3.Function("f32_val", z3.IntSort(), z3.IntSort())
F64_VAL = z3.Function("f64_val", z3.IntSort(), z3.IntSort())


def _parse_fmt(fmt: str) -> Tuple[str, List[Tuple[Optional[int], str]]]:
    order = "<"
    if fmt and fmt[0] in "<>!=@":
        order = fmt[0]
        fmt = fmt[1:]
    else:
        raise Unsupported("native struct format")
    if order in "=@":
        raise Unsupported("native struct format")
    items: List[Tuple[Optional[int], str]] = []
    n = ""
    for ch in fmt:
        if ch.isdigit():
            n += ch
        elif ch == " ":
            continue
        else:
            items.append((int(n) if n else None, ch))
            n = ""
    return ("little" if order == "<" else "big"), items


def struct_pack(fmt: Any, *args: Any) -> Any:
    if not is_sym(fmt) and not has_sym(args):
        return real_struct.pack(fmt, *args)
    if is_sym(fmt):
        return _pack_fixed(fmt, args)
    order, items = _parse_fmt(fmt)
    out: List[Any] = []
    args_ = list(args)
    for n, ch in items:
        if ch == "s":
            out.append(_fixed(n if n is not None else 1, args_.pop(0)))
        elif ch == "x":
            out.append(bytes(n if n is not None else 1))
        elif ch in "fd":
            for _ in range(n if n is not None else 1):
                out.append(_pack_float(ch, args_.pop(0), order))
        elif ch in CODES:
            w, signed = CODES[ch]
            for _ in range(n if n is not None else 1):
                if not args_:
                    raise real_struct.error("pack expected more items")
                x = args_.pop(0)
                if isinstance(x, (SInt, SBool, SEnum, SFlags)):
                    out.append(sym.int_to_bytes(SInt(x._int()) if isinstance(x, SBool) else x if isinstance(x, SInt) else SInt(term(x)),
                                                w, order, signed, real_struct.error, f"'{ch}' format requires a number in range"))
                elif is_sym(x):
                    cid = getattr(type(x), "_z3", None)
                    if cid is None:
                        raise real_struct.error("required argument is not an integer")
                    out.append(sym.int_to_bytes(SInt(term(x)), w, order, signed, real_struct.error))
                else:
                    out.append(real_struct.pack((">" if order == "big" else "<") + ch, x))
        else:
            raise Unsupported(f"struct format {ch}")
    if args_:
        raise real_struct.error("pack expected fewer items")
    return SBytes.cat(out) if out else b""


def _fixed(n: Any, x: Any) -> Any:
    """<n>s"""
    if not isinstance(x, (bytes, bytearray, SBytes, SByteArray)):
        raise real_struct.error("argument for 's' must be a bytes object")
    s = SBytes.of(x)
    k = s._len_term()
    t = term(n)
    if z3.is_true(sym.simp(k == t)) or ctx().entails(k == t):
        return s
    if sym.lt(t, k):
        return s.cut(num(t) if num(t) is not None else t)[0]
    pad = sym.minus(t, k)
    return SBytes.cat([s, SBytes([sym.p_rep(z3.IntVal(0), pad)]) if num(pad) is None else bytes(num(pad))])


def _pack_fixed(fmt: SStr, args: Tuple) -> Any:
    """f"<{l}s..." with a symbolic l"""
    ps = list(fmt.pieces)
    if not ps or ps[0].const is None or not ps[0].const.startswith("<"):
        raise Unsupported("symbolic struct format")
    out: List[Any] = []
    args_ = list(args)
    rest = ps[0].const[1:]
    i = 1
    while True:
        if rest:
            j = len(rest)
            order, items = _parse_fmt("<" + rest[:j])
            n_args = sum((n or 1) if ch not in "sx" else (1 if ch == "s" else 0) for n, ch in items)
            out.append(struct_pack("<" + rest[:j], *args_[:n_args]))
            args_ = args_[n_args:]
            rest = ""
        if i >= len(ps):
            break
        p = ps[i]
        if p.key is None or p.key[0] != "dec" or i + 1 >= len(ps) or ps[i + 1].const is None or not ps[i + 1].const.startswith("s"):
            raise Unsupported("symbolic struct format")
        n = p.key[1]
        if not ctx().entails(n >= 0):
            raise Unsupported("negative count in a struct format")
        out.append(_fixed(wrap(n), args_.pop(0)))
        rest = ps[i + 1].const[1:]
        i += 2
    if args_:
        raise real_struct.error("pack expected fewer items")
    return SBytes.cat(out)


def _pack_float(ch: str, x: Any, order: str) -> Any:
    if not isinstance(x, SFloat):
        if is_sym(x):
            raise Unsupported("float encoding of an integer")
        return real_struct.pack("<" + ch if order == "little" else ">" + ch, x)
    w = 4 if ch == "f" else 8
    f, g = (F32_BITS, F32_VAL) if ch == "f" else (F64_BITS, F64_VAL)
    t = f(x._z3)
    c = ctx()
    c.add(z3.And(t >= 0, t < 1 << (8 * w)))
    if ch == "d":
        c.add(g(t) == x._z3)
    else:
        # only floats that a FLOAT can hold come back
        fits = ctx().state.get("f32_exact", set())
        if any(y is x for y in fits) if isinstance(fits, list) else False:
            c.add(g(t) == x._z3)
    return SBytes([sym.p_int(t, w, order)])


def struct_unpack(fmt: Any, data: Any) -> Any:
    if not is_sym(fmt) and not is_sym(data):
        return real_struct.unpack(fmt, data)
    if is_sym(fmt):
        raise Unsupported("symbolic struct format")
    order, items = _parse_fmt(fmt)
    size = real_struct.calcsize(fmt)
    s = SBytes.of(data)
    n = s._len_term()
    if num(n) is not None:
        if num(n) != size:
            raise real_struct.error(f"unpack requires a buffer of {size} bytes")
    elif not ctx().branch(n == size):
        raise real_struct.error(f"unpack requires a buffer of {size} bytes")
    out: List[Any] = []
    pos = 0
    for cnt, ch in items:
        if ch == "s":
            k = cnt if cnt is not None else 1
            out.append(s.slice(pos, pos + k))
            pos += k
            continue
        if ch == "x":
            pos += cnt if cnt is not None else 1
            continue
        for _ in range(cnt if cnt is not None else 1):
            if ch in "fd":
                w = 4 if ch == "f" else 8
                t = term(sym.int_from_bytes(s.slice(pos, pos + w), order))
                out.append(SFloat((F32_VAL if ch == "f" else F64_VAL)(t)))
            elif ch in CODES:
                w, signed = CODES[ch]
                x = s.slice(pos, pos + w)
                out.append(sym.int_from_bytes(x, order, signed) if is_sym(x) else int.from_bytes(x, order, signed=signed))
            else:
                raise Unsupported(f"struct format {ch}")
            pos += w
    return tuple(out)


class _BytesIOMeta(_Meta):
    pass


class BytesIO_(metaclass=_Meta):
    _real, _sym, _not = real_io.BytesIO, SReader, ()

    @staticmethod
    def _make(x: Any = b"") -> Any:
        return SReader(x)


class SHash(Symbolic):
    __slots__ = ("data",)
    _mutable = True

    def __init__(self, data: Any):
        self.data = SBytes.of(data)

    def update(self, x: Any) -> None:
        self.data = SBytes.of(SBytes.cat([self.data, x]))

    def digest(self) -> Any:
        return sha1_digest(self.data)

    def hexdigest(self) -> Any:
        return SHexText(sha1_digest(self.data))


class SHexText(Symbolic):
    """The hexadecimal text of bytes"""
    __slots__ = ("data",)

    def __init__(self, data: Any):
        self.data = data

    @property
    def __class__(self) -> Any:
        return str

    def _fromhex(self) -> Any:
        return self.data

    def __bool__(self) -> bool:
        return True  # of a digest

    __hash__ = Symbolic.__hash__


SHA_AT = z3.Function("sha1_at", z3.IntSort(), z3.IntSort(), z3.IntSort())


def bytes_id(s: SBytes) -> Any:
    """An integer that names a byte string (equal ids for strings that are built from the same pieces)"""
    c = ctx()
    k = s.key()
    if None not in k:
        for t, o in c.memo.get("bids", []):
            if len(o.pieces) == len(s.pieces) and all(sym.same_key(a, b) for a, b in zip(o.pieces, s.pieces)):
                return t
    t = sym.ctx_fresh("bid")
    c.memo.setdefault("bids", []).append((t, s))
    return t


def sha1_digest(data: Any) -> Any:
    """SHA-1: an unspecified function to strings of 20 bytes"""
    c = ctx()
    s = SBytes.of(data)
    t = bytes_id(s)
    q = z3.Int("q")
    f = lambda i: SHA_AT(t, term(i))
    c.add(z3.ForAll([q], z3.And(f(q) >= 0, f(q) < 256), patterns=[f(q)]))
    return SBytes([sym.p_fun(f, 20, key=("sha1", t))])


def sha1_(data: Any = b"", **k: Any) -> Any:
    if core.CTX is not None and core.CTX.symbolic:
        return SHash(data)
    import hashlib
    return hashlib.sha1(data)


class NullLogger:
    def __getattr__(self, name: str) -> Any:
        return self._none

    @staticmethod
    def _none(*a: Any, **k: Any) -> None:
        return None


NULL_LOGGER = NullLogger()
logging_ = Module("logging")
logging_.getLogger = lambda *a, **k: NULL_LOGGER  # type: ignore


def _override(name: str) -> Callable:
    """A function of a standard module that a unit may replace (v.state["stub:" + name])"""
    mod, _, attr = name.rpartition(".")
    real = getattr(importlib.import_module(mod), attr)

    def f(*a: Any, **k: Any) -> Any:
        c = core.CTX
        if c is not None and ("stub:" + name) in c.state:
            return c.state["stub:" + name](*a, **k)
        if c is not None and c.symbolic:
            raise Unsupported(f"{name} without a contract")
        return real(*a, **k)
    f._dv_ok__ = True  # type: ignore
    return f


def isfinite_(x: Any) -> Any:
    if isinstance(x, SFloat):
        return wrap(z3.Function("finite", z3.IntSort(), z3.BoolSort())(x._z3))
    if isinstance(x, (SInt, SBool)):
        return True
    return math.isfinite(x)


# dates: by their fields

class STimedelta(Symbolic):
    """days, 0 <= seconds < 86400, 0 <= microseconds < 10**6"""
    __slots__ = ("days", "seconds", "microseconds")

    def __init__(self, days: Any, seconds: Any, microseconds: Any):
        self.days, self.seconds, self.microseconds = days, seconds, microseconds

    def _us(self) -> Any:
        return (term(self.days) * 86400 + term(self.seconds)) * 1000000 + term(self.microseconds)

    @staticmethod
    def _of(x: Any) -> Any:
        if isinstance(x, STimedelta):
            return x._us()
        if isinstance(x, real_datetime.timedelta):
            return z3.IntVal((x.days * 86400 + x.seconds) * 1000000 + x.microseconds)
        return None

    def _cmp(self, o: Any, f: Callable) -> Any:
        t = self._of(o)
        if t is None:
            return NotImplemented
        if num(t) == 0:
            # by the sign of days: less to ask of the solver
            neg, zero = term(self.days) < 0, z3.And(term(self.days) == 0, term(self.seconds) == 0, term(self.microseconds) == 0)
            return wrap(z3.simplify(f(z3.If(neg, -1, z3.If(zero, 0, 1)), z3.IntVal(0))))
        return wrap(f(self._us(), t))

    def __lt__(self, o: Any) -> Any: return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o: Any) -> Any: return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o: Any) -> Any: return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o: Any) -> Any: return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o: Any) -> Any: return self._cmp(o, lambda a, b: a == b)

    __hash__ = Symbolic.__hash__

    def __bool__(self) -> bool:
        return bool(Not(self == real_datetime.timedelta(0)))

    def __neg__(self) -> Any:
        return _normal(-term(self.days), -term(self.seconds), -term(self.microseconds))

    def __abs__(self) -> Any:
        return -self if ctx().branch(term(self.days) < 0) else self

    def __mul__(self, n: Any) -> Any:
        if type(n) is not int:
            raise Unsupported("timedelta *")
        return _normal(term(self.days) * n, term(self.seconds) * n, term(self.microseconds) * n)

    __rmul__ = __mul__

    def total_seconds(self) -> Any:
        raise Unsupported("total_seconds (a float)")

    def _str(self) -> Any:
        raise Unsupported("str of a timedelta")


def _normal(d: Any, s: Any, us: Any) -> STimedelta:
    d, s, us = sym.simp(term(d)), sym.simp(term(s)), sym.simp(term(us))
    if all(num(t) is not None for t in (d, s, us)):
        x = real_datetime.timedelta(num(d), num(s), num(us))
        return STimedelta(x.days, x.seconds, x.microseconds)
    c = core.ctx()
    key = ("timedelta", sym.tid(d), sym.tid(s), sym.tid(us))
    if key not in c.memo:
        zero = num(us) == 0
        # the only fields in range that denote the same duration
        u = z3.IntVal(0) if zero else z3.Int(c.fresh_name("microseconds"))
        sec, day, carry, days = (z3.Int(c.fresh_name(n)) for n in ("seconds", "days", "carry", "carry_days"))
        c.add(z3.And(u >= 0, u < 1000000, sec >= 0, sec < 86400))
        if zero:
            c.add(carry == 0)
        else:
            c.add(us == u + 1000000 * carry)
        c.add(z3.And(s + carry == sec + 86400 * days, day == d + days))
        c.memo[key] = STimedelta(wrap(day), wrap(sec), wrap(u))
    return c.memo[key]


class SDate(Symbolic):
    __slots__ = ("year", "month", "day")

    def __init__(self, year: Any, month: Any, day: Any):
        self.year, self.month, self.day = year, month, day

    def _str(self) -> Any:
        # documented: isoformat
        return SStr.cat([fmt4(self.year), "-", sym.fmt_int(self.month, "02"), "-", sym.fmt_int(self.day, "02")])

    isoformat = _str


def fmt4(x: Any) -> Any:
    t = term(x)
    return SStr([sym.p_fun(lambda i: sym._select(term(i), {k: 48 + t / 10 ** (3 - k) % 10 for k in range(4)}), 4, key=("04", sym.simp(t)), nonul=True, tok=("ascii",))])


class SDatetime(Symbolic):
    __slots__ = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")

    def __init__(self, year: Any, month: Any, day: Any, hour: Any, minute: Any, second: Any, microsecond: Any, tzinfo: Any = None):
        self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond, self.tzinfo = (
            year, month, day, hour, minute, second, microsecond, tzinfo)

    def replace(self, **k: Any) -> Any:
        f = {n: getattr(self, n) for n in SDatetime.__slots__}
        f.update(k)
        return SDatetime(**f)

    def _str(self) -> Any:
        # documented: isoformat(" ")
        if self.tzinfo is not None:
            raise Unsupported("text of an aware datetime")
        parts = [fmt4(self.year), "-", sym.fmt_int(self.month, "02"), "-", sym.fmt_int(self.day, "02"), " ",
                 sym.fmt_int(self.hour, "02"), ":", sym.fmt_int(self.minute, "02"), ":", sym.fmt_int(self.second, "02")]
        if self.microsecond != 0:
            parts += [".", sym.fmt_int(self.microsecond, "06")]
        return SStr.cat(parts)

    def date(self) -> Any:
        return SDate(self.year, self.month, self.day)


class timedelta_(metaclass=_Meta):
    _real, _sym, _not = real_datetime.timedelta, STimedelta, ()

    @staticmethod
    def _make(*a: Any, **k: Any) -> Any:
        if has_sym(a) or has_sym(k.values()):
            f = dict(zip(("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"), a))
            f.update(k)
            if any(isinstance(x, (float, SFloat)) for x in f.values()):
                raise Unsupported("timedelta of floats")
            g = lambda n: term(f.get(n, 0))
            return _normal(g("days") + 7 * g("weeks"), g("seconds") + 60 * g("minutes") + 3600 * g("hours"),
                           g("microseconds") + 1000 * g("milliseconds"))
        return real_datetime.timedelta(*a, **k)


class datetime_(metaclass=_Meta):
    _real, _sym, _not = real_datetime.datetime, SDatetime, ()

    @staticmethod
    def _make(*a: Any, **k: Any) -> Any:
        if has_sym(a) or has_sym(k.values()):
            raise Unsupported("datetime()")
        return real_datetime.datetime(*a, **k)

    @staticmethod
    def fromtimestamp(*a: Any, **k: Any) -> Any:
        if has_sym(a) or has_sym(k.values()):
            raise Unsupported("fromtimestamp")
        return real_datetime.datetime.fromtimestamp(*a, **k)

    @staticmethod
    def now(*a: Any, **k: Any) -> Any:
        c = core.CTX
        if c is not None and "stub:datetime.now" in c.state:
            return c.state["stub:datetime.now"](*a, **k)
        return real_datetime.datetime.now(*a, **k)


class STimezone(Symbolic):
    __slots__ = ("offset",)

    def __init__(self, offset: Any):
        self.offset = offset

    def utcoffset(self, dt: Any) -> Any:
        return self.offset


class timezone_(metaclass=_Meta):
    _real, _sym, _not = real_datetime.timezone, STimezone, ()

    @staticmethod
    def _make(*a: Any, **k: Any) -> Any:
        if a and isinstance(a[0], STimedelta):
            day = real_datetime.timedelta(days=1)
            if Or(a[0] >= day, a[0] <= -day):
                raise ValueError("offset must be a timedelta strictly between -24 and 24 hours")
            return STimezone(a[0])
        return real_datetime.timezone(*a, **k)


def _transparent_cache(*a: Any, **k: Any) -> Any:
    """functools.lru_cache and functools.cache: taken to be invisible, i.e. what they decorate is a function of its arguments"""
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


class date_(metaclass=_Meta):
    _real, _sym, _not = real_datetime.date, (SDate, SDatetime), ()

    @staticmethod
    def _make(*a: Any, **k: Any) -> Any:
        if has_sym(a) or has_sym(k.values()):
            raise Unsupported("date()")
        return real_datetime.date(*a, **k)


STD: Dict[str, Any] = {
    "struct": _proxy("struct", real_struct, pack=struct_pack, unpack=struct_unpack),
    "io": _proxy("io", real_io, BytesIO=BytesIO_),
    "hashlib": _proxy("hashlib", importlib.import_module("hashlib"), sha1=sha1_),
    "logging": logging_,
    "math": _proxy("math", math, isfinite=isfinite_),
    "datetime": _proxy("datetime", real_datetime, timedelta=timedelta_, datetime=datetime_, date=date_,
                       timezone=timezone_),
    "functools": _proxy("functools", importlib.import_module("functools"), lru_cache=_transparent_cache, cache=_transparent_cache),
    "asyncio": _proxy("asyncio", real_asyncio, **{n: _override("asyncio." + n) for n in (
        "sleep", "create_task", "current_task", "ensure_future", "get_event_loop", "wait_for", "shield", "gather", "wait",
        "get_running_loop", "start_server", "start_unix_server")}),
    "random": _proxy("random", importlib.import_module("random"), randint=_override("random.randint"), SystemRandom=_override("random.SystemRandom")),
    "re": _proxy("re", importlib.import_module("re"), **regex.OVERRIDES),
    "inspect": _proxy("inspect", importlib.import_module("inspect")),
}


# ------------------------------------------------------------------ import

def dv_import(name: str, globals_: Any = None, locals_: Any = None, fromlist: Any = (), level: int = 0) -> Any:
    if level:
        pkg = (globals_ or {}).get("__package__") or PKG
        name = pkg + ("." + name if name else "")
    if name == PKG or name.startswith(PKG + "."):
        m = module(name)
        if fromlist:
            for x in fromlist:
                if not hasattr(m, x) and exists(name + "." + x):
                    setattr(m, x, module(name + "." + x))
            return m
        return module(PKG)
    if name in STD:
        return STD[name]
    if "." in name and name.split(".")[0] in STD and not fromlist:
        return STD[name.split(".")[0]]
    return builtins.__import__(name, globals_, locals_, fromlist, 0)


def path_of(name: str) -> str:
    p = os.path.join(REPO, *name.split("."))
    return os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"


def exists(name: str) -> bool:
    return os.path.exists(path_of(name))


SOURCES: Dict[str, str] = {}


def module(name: str) -> Any:
    if name in SHADOW:
        return SHADOW[name]
    if name != PKG and "." in name:
        parent = module(name.rpartition(".")[0])
    else:
        parent = None
    m = pytypes.ModuleType("shadow." + name)
    sys.modules["shadow." + name] = m  # dataclasses look for it
    SHADOW[name] = m
    path = path_of(name)
    with open(path, encoding="utf-8") as f:
        src = f.read()
    SOURCES[name] = src
    b = dict(BUILTINS)
    b["__import__"] = dv_import
    m.__dict__.update({"__builtins__": b, "__file__": path, "_dv_shadow__": True,
                       "__package__": name if path.endswith("__init__.py") else name.rpartition(".")[0]})
    if name == PKG:
        m.__dict__["__path__"] = [os.path.dirname(path)]
        return m  # the package itself only re-exports
    tree = ast.fix_missing_locations(Rewriter().visit(ast.parse(src, path)))
    try:
        exec(compile(tree, path, "exec", dont_inherit=True), m.__dict__)  # pylint: disable=exec-used
    except BaseException:
        SHADOW.pop(name, None)
        raise
    if parent is not None:
        setattr(parent, name.rpartition(".")[2], m)
    return m


def replace_everywhere(v: Any, old: Any, new: Any) -> None:
    """A callee by its contract, in every module that has imported it"""
    for m in list(SHADOW.values()):
        for k, x in list(vars(m).items()):
            if x is old:
                v.patch(m, k, new)


# ------------------------------------------------------------------ coroutines

def drive(coro: Any) -> Any:
    """Run a coroutine whose awaits all return at once"""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise Unsupported("the coroutine waits for something without a contract")
