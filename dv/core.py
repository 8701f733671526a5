"""The verifier: path exploration with z3 over the real functions, executed on symbolic values.

A unit is a Python function unit(v).  It makes arbitrary inputs (v.int, v.bytes, ...), states preconditions (v.assume), calls a
function of /repo and states postconditions (v.check).  Under Sym every branch of the executed code on a symbolic value forks,
loops with an invariant are cut, and each check is an obligation: its negation together with the path condition goes to z3.
Under Conc the same unit runs the unmodified code on concrete values.
"""
from __future__ import annotations

import builtins
import os
import re
import sys
import time
import traceback
import types
from typing import Any, Callable, Dict, List, Optional, Tuple

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

import z3  # noqa: E402

z3.set_param("smt.random_seed", 1)


class PathEnd(BaseException):
    """The path is over (infeasible, or cut at the end of a loop iteration)"""


class Unsupported(BaseException):
    """Something the verifier has no semantics for: the unit is undecided"""


class Skip(BaseException):
    """A concrete input outside the precondition"""


class Failed(BaseException):
    """A check failed on concrete values"""

    def __init__(self, name: str, detail: str):
        super().__init__(f"{name}: {detail}")
        self.name = name


class Obligation:
    def __init__(self, name: str, aux: bool):
        self.name = name
        self.aux = aux  # about the proof (invariants, frames), not the property
        self.instances = 0
        self.failed: Optional[str] = None
        self.unknown = 0
        self.model: Optional[dict] = None
        self.core = False  # needed z3 (not settled by simplification)
        self.reached = False


def term(x: Any) -> Any:
    """z3 term of a value"""
    t = getattr(x, "_z3", None)
    if t is not None:
        return t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"no term for {type(x).__name__}")


CTX: Optional["Base"] = None


def ctx() -> "Base":
    if CTX is None:
        raise Unsupported("a symbolic value outside of a unit")
    return CTX


class Base:
    symbolic = False
    bounded = False  # loops are unrolled, and inputs with a bound= have it

    def __init__(self, unit: "Unit"):
        self.unit = unit
        self.undo: List[Callable[[], None]] = []

    def patch(self, obj: Any, name: str, value: Any) -> None:
        missing = object()
        d = vars(obj) if hasattr(obj, "__dict__") else {}
        old = d.get(name, missing)
        if old is missing and not hasattr(obj, name):
            raise Unsupported(f"the contract is about {name}, which isn't there")
        setattr(obj, name, value)
        self.undo.append(lambda: delattr(obj, name) if old is missing else setattr(obj, name, old))

    def cleanup(self) -> None:
        for f in reversed(self.undo):
            f()
        self.undo = []


class Sym(Base):
    symbolic = True

    def __init__(self, unit: "Unit", timeout_ms: int, deadline: float):
        super().__init__(unit)
        self.obl: Dict[str, Obligation] = {}
        self.timeout = timeout_ms
        self.deadline = deadline
        self.paths = 0
        self.complete_paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.prefix: List[int] = []
        self.trace: List[Tuple[int, int]] = []
        self.pending: List[List[int]] = []
        self.undecided: List[str] = []
        self.loops_cut: set = set()
        self.stubs: set = set()
        self.executed: set = set()
        self.frame_only = False

    # --- one path
    def begin(self, prefix: List[int]) -> None:
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        self.n = 0
        self.dead = False
        self.inputs: List[Tuple[str, str, Any]] = []
        self.choices: List[Tuple[str, int]] = []
        self.memo: Dict[Any, Any] = {}
        self.abstract = False
        self.state: Dict[str, Any] = {}

    def fresh_name(self, base: str) -> str:
        self.n += 1
        return f"{base}!{self.n}"

    def sat(self, *extra: Any) -> Any:
        if time.time() > self.deadline:
            raise Unsupported("time limit of the unit")
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def alive(self) -> None:
        if self.dead:
            raise PathEnd()

    def end(self) -> None:
        self.dead = True
        raise PathEnd()

    def assume(self, cond: Any) -> None:
        self.alive()
        if isinstance(cond, bool):
            if not cond:
                self.end()
            return
        c = z3.simplify(term(cond))
        if z3.is_true(c):
            return
        self.solver.add(c)
        if z3.is_false(c) or self.sat() == z3.unsat:
            self.end()

    def add(self, cond: Any) -> None:
        """An assumption that cannot contradict the path (about fresh symbols)"""
        self.solver.add(cond)

    def decide(self, n: int, feasible: Callable[[int], bool]) -> int:
        """Fork n ways"""
        self.alive()
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            opts = [i for i in range(n) if feasible(i)]
            if not opts:
                self.end()
            d = opts[0]
            base = [x for x, _ in self.trace]
            for o in reversed(opts[1:]):
                self.pending.append(base + [o])
        self.trace.append((d, n))
        return d

    def branch(self, cond: Any) -> bool:
        self.alive()
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        conds = [c, z3.Not(c)]
        d = self.decide(2, lambda i: self.sat(conds[i]) != z3.unsat)
        self.solver.add(conds[d])
        return d == 0

    def choose(self, n: int, name: str = "choice") -> int:
        """Demonic choice"""
        d = self.decide(n, lambda i: True)
        self.choices.append((name, d))
        return d

    def entails(self, cond: Any) -> bool:
        c = z3.simplify(term(cond))
        if z3.is_true(c):
            return True
        return self.sat(z3.Not(c)) == z3.unsat

    def check(self, name: str, cond: Any, detail: Any = "", aux: bool = False) -> None:
        self.alive()
        if self.frame_only:
            return
        o = self.obl.get(name)
        if o is None:
            o = self.obl[name] = Obligation(name, aux)
        o.instances += 1
        if isinstance(cond, bool):
            c = z3.BoolVal(cond)
        else:
            c = z3.simplify(term(cond))
        if z3.is_true(c):
            o.reached = True
            return
        neg = z3.Not(c)
        r = self.sat(neg)
        o.core = True
        if r == z3.unsat:
            o.reached = True
            self.solver.add(c)
            return
        if r == z3.unknown:
            o.unknown += 1
            self.undecided.append(f"{name}: z3 gave no answer ({self.solver.reason_unknown()})")
            self.solver.add(c)
            return
        if o.failed is None:
            m = self.solver.model()
            o.failed = str(detail() if callable(detail) else detail)
            o.model = self.extract(m)
        # go on as if it held, so that later obligations are judged by themselves
        self.solver.add(c)
        if self.sat() == z3.unsat:
            self.end()

    def reach(self, name: str) -> None:
        """Vacuity: this point is reachable"""
        self.check("reachable: " + name, True)

    def extract(self, m: Any) -> dict:
        vals = {}
        for name, kind, x in self.inputs:
            try:
                vals[name] = concretise(kind, x, m)
            except Exception as e:  # pylint: disable=broad-except
                vals[name] = None
                vals["?" + name] = repr(e)
        return {"inputs": vals, "choices": list(self.choices), "abstract": self.abstract}

    # --- inputs
    def int(self, name: str, lo: Any = None, hi: Any = None, values: Any = None) -> Any:
        from dv.sym import SInt
        t = z3.Int(self.fresh_name(name))
        if lo is not None:
            self.solver.add(t >= term(lo))
        if hi is not None:
            self.solver.add(t <= term(hi))
        if values is not None:
            self.solver.add(z3.Or([t == x for x in values]))
        self.inputs.append((name, "int", t))
        return SInt(t)

    def bool(self, name: str) -> Any:
        from dv.sym import SBool
        t = z3.Bool(self.fresh_name(name))
        self.inputs.append((name, "bool", t))
        return SBool(t)

    def bytes(self, name: str, maxlen: Any = None, length: Any = None, minlen: Any = 0, nonul: bool = False, bound: Any = None) -> Any:
        from dv.sym import SBytes
        if self.bounded and bound is not None:
            maxlen = bound if maxlen is None else min(maxlen, bound)
        b = SBytes.new(name, length=length, nonul=nonul)
        if length is None:
            self.solver.add(b._len >= term(minlen))
            if maxlen is not None:
                self.solver.add(b._len <= term(maxlen))
        self.inputs.append((name, "bytes", b))
        return b

    def flags(self, name: str, cls: Any, n: int = 32) -> Any:
        from dv.sym import SFlags
        return SFlags.new(cls, name, n)

    def charset(self, name: str) -> Any:
        """Any character set: encode and decode are inverse on what is representable, else nothing is known"""
        from dv.sym import SCharset
        t = z3.Int(self.fresh_name(name))
        self.solver.add(z3.And(t >= 1, t < 256))
        self.inputs.append((name, "charset", t))
        return SCharset(t, name, self.mod("charset").CharacterSet)

    def text(self, name: str, nonul: bool = False, maxlen: Any = None) -> Any:
        from dv.sym import SStr
        s = SStr.new(name, nonul=nonul)
        if maxlen is not None:
            self.solver.add(s._len <= term(maxlen))
        self.inputs.append((name, "text", s))
        return s

    def pick(self, name: str, options: Any) -> Any:
        """Any of finitely many concrete values"""
        options = list(options)
        return options[self.choose(len(options), name)]

    def mod(self, name: str) -> Any:
        from dv import shadow
        return shadow.module("mysql_mimic." + name)


def concretise(kind: str, x: Any, m: Any) -> Any:
    ev = lambda t: m.eval(t, model_completion=True)
    if kind == "int":
        return ev(x).as_long()
    if kind == "bool":
        return z3.is_true(ev(x))
    if kind == "flags":
        return sum(1 << i for i, b in enumerate(x.bits) if z3.is_true(ev(b)))
    if kind == "charset":
        return ev(x).as_long()
    if kind == "text":
        n = ev(x._len).as_long()
        if n > 1 << 20:
            raise ValueError("too long")
        cps = [ev(x._at(z3.IntVal(i))).as_long() for i in range(min(n, 4096))]
        cps = [c if 0 <= c < 127 and (c or not x.nonul()) else 97 + c % 26 for c in cps]
        return "".join(map(chr, cps)) + "a" * (n - len(cps))
    if kind == "bytes":
        n = ev(x._len).as_long()
        if n > 1 << 25:
            raise ValueError("too long")
        base = ev(x._at(z3.IntVal(0))).as_long() & 255 if n > 4096 else 0
        if n > 4096:
            return bytes([base]) * n
        return bytes(ev(x._at(z3.IntVal(i))).as_long() & 255 for i in range(n))
    raise ValueError(kind)


class Conc(Base):
    """The same unit on concrete values and the unmodified code"""
    symbolic = False

    def __init__(self, unit: "Unit", inputs: Optional[dict] = None, choices: Optional[list] = None, rng: Any = None):
        super().__init__(unit)
        self.given = dict(inputs or {})
        self.choices = list(choices or [])
        self.rng = rng
        self.used: Dict[str, Any] = {}
        self.state: Dict[str, Any] = {}
        self.abstract = False
        self.checks = 0
        self.memo: Dict[Any, Any] = {}

    def _val(self, name: str, make: Callable[[], Any]) -> Any:
        if name in self.given and self.given[name] is not None:
            x = self.given.pop(name)
        elif self.rng is not None:
            x = make()
        else:
            raise Skip()
        self.used.setdefault(name, x)
        return x

    def int(self, name: str, lo: Any = None, hi: Any = None, values: Any = None) -> int:
        def make() -> int:
            r = self.rng
            if values is not None:
                return r.choice(list(values))
            a, b = (lo if lo is not None else -(1 << 70)), (hi if hi is not None else 1 << 70)
            edge = [a, b, a + 1, b - 1, 0, 1, 250, 251, 252, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, -1]
            edge = [e for e in edge if a <= e <= b]
            small = [e for e in range(max(a, -3), min(b, 12) + 1)]
            return r.choice([r.choice(edge), r.randint(a, b), r.choice(small or edge)])
        x = self._val(name, make)
        if (lo is not None and x < lo) or (hi is not None and x > hi) or (values is not None and x not in values):
            raise Skip()
        return x

    def bool(self, name: str) -> bool:
        return self._val(name, lambda: self.rng.random() < 0.5)

    def bytes(self, name: str, maxlen: Any = None, length: Any = None, minlen: Any = 0, nonul: bool = False, bound: Any = None) -> bytes:
        def make() -> bytes:
            r = self.rng
            n = length if length is not None else r.choice([0, 1, 2, 3, 5, 8, 20, 21, 22, 249, 250, 251, 252, 300, r.randrange(40)])
            n = max(int(n), minlen)
            if maxlen is not None:
                n = min(n, maxlen)
            return bytes(r.choice([0, 1, 39, 63, 65, 92, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, r.randrange(256)]) or nonul for _ in range(n))
        x = self._val(name, make)
        if length is not None and len(x) != length or len(x) < minlen or maxlen is not None and len(x) > maxlen or nonul and 0 in x:
            raise Skip()
        return x

    def flags(self, name: str, cls: Any, n: int = 32) -> Any:
        return cls(self._val(name, lambda: self.rng.choice([0, (1 << n) - 1, self.rng.getrandbits(n), self.rng.getrandbits(n), int(self.rng.choice(list(cls)))])) & ((1 << n) - 1))

    def charset(self, name: str) -> Any:
        cls = self.mod("charset").CharacterSet
        names = ["utf8mb4", "latin1", "cp1251", "gbk", "sjis", "euckr", "latin2", "greek"]
        x = self._val(name, lambda: self.rng.randrange(256))
        return cls[names[x % len(names)]]

    def text(self, name: str, nonul: bool = False, maxlen: Any = None) -> str:
        def make() -> str:
            r = self.rng
            n = r.choice([0, 1, 2, 3, 5, 20, 250, 251, 300])
            if maxlen is not None:
                n = min(n, maxlen)
            return "".join(r.choice("abcXYZ019 _-'\\\"`?%;#/*\n") for _ in range(n))
        x = self._val(name, make)
        if nonul and "\0" in x or maxlen is not None and len(x) > maxlen:
            raise Skip()
        return x

    def choose(self, n: int, name: str = "choice") -> int:
        for i, (k, d) in enumerate(self.choices):
            if k == name:
                del self.choices[:i + 1]
                if d < n:
                    return d
                break
        if self.rng is not None:
            return self.rng.randrange(n)
        return 0

    def pick(self, name: str, options: Any) -> Any:
        options = list(options)
        return options[self.choose(len(options), name)]

    def assume(self, cond: Any) -> None:
        if not cond:
            raise Skip()

    def add(self, cond: Any) -> None:
        pass

    def check(self, name: str, cond: Any, detail: Any = "", aux: bool = False) -> None:
        self.checks += 1
        if not cond and not aux:
            raise Failed(name, str(detail() if callable(detail) else detail))

    def entails(self, cond: Any) -> bool:
        return bool(cond)

    def reach(self, name: str) -> None:
        pass

    def end(self) -> None:
        raise Skip()

    def mod(self, name: str) -> Any:
        import importlib
        return importlib.import_module("mysql_mimic." + name)


class Unit:
    def __init__(self, fn: Callable[[Any], None], props: List[str], targets: List[str], name: str, loops: Optional[dict] = None,
                 assumes: Optional[List[str]] = None, concrete: bool = True, max_paths: int = 4000, timeout_ms: int = 10000,
                 budget: float = 60.0, internal: bool = False, weight: float = 1.0, bounded: str = ""):
        self.bounded = bounded  # what it is bounded to: its obligations are never counted as proved
        self.internal = internal
        self.weight = weight
        self.fn, self.props, self.targets, self.name = fn, props, targets, name
        self.loops = loops or {}
        self.assumes = assumes or []
        self.concrete = concrete
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.budget = budget


UNITS: Dict[str, Unit] = {}


def unit(props: str, targets: str = "", **kw: Any) -> Callable:
    def deco(fn: Callable) -> Callable:
        name = kw.pop("name", None) or (fn.__module__.split(".")[-1] + "." + fn.__name__)
        UNITS[name] = Unit(fn, props.split(), targets.split(), name, **kw)
        return fn
    return deco


class Outcome:
    """Of one unit, picklable"""

    def __init__(self, name: str):
        self.name = name
        self.obligations: List[dict] = []
        self.undecided: List[str] = []
        self.paths = self.queries = 0
        self.solver_time = self.wall = 0.0
        self.functions: List[str] = []
        self.loops: List[str] = []
        self.stubs: List[str] = []

    @property
    def proved(self) -> bool:
        return bool(self.obligations) and not self.undecided and all(o["status"] == "discharged" for o in self.obligations)


def explore(u: Unit, budget: Optional[float] = None, bounded: bool = False, frame_only: bool = False) -> Outcome:
    """All paths of a unit; frame_only: what they write to the shared state, and nothing else"""
    global CTX
    t0 = time.time()
    out = Outcome(u.name)
    v = Sym(u, u.timeout_ms, t0 + (budget or u.budget))
    v.bounded = bounded
    v.frame_only = frame_only
    v.pending.append([])
    shared = shared_state()
    written: List[str] = []
    while v.pending:
        prefix = v.pending.pop()
        v.paths += 1
        if v.paths > u.max_paths:
            v.undecided.append(f"more than {u.max_paths} paths")
            break
        v.begin(prefix)
        CTX = v
        try:
            u.fn(v)
            v.complete_paths += 1
        except PathEnd:
            pass
        except Unsupported as e:
            v.undecided.append(f"{e} [{where(e)}]")
        except RecursionError as e:
            v.undecided.append(f"{type(e).__name__} [{where(e)}]")
        except Exception as e:  # pylint: disable=broad-except
            # an exception of the code that the unit doesn't expect
            if misfit(e):
                v.undecided.append(f"the contract doesn't fit: {e} [{where(e)}]")
            elif not v.dead:
                try:
                    v.check(f"no unexpected {type(e).__name__}", False, f"{e} [{where(e)}]", aux=not u_from_repo(e))
                except PathEnd:
                    pass
                except Unsupported as e2:
                    v.undecided.append(str(e2))
        finally:
            CTX = None
            v.cleanup()
        if shared is not None:
            w = shared.changes()
            if w:
                written += w
                shared.restore()
        if len(v.undecided) > 20 or time.time() > v.deadline:
            if v.pending:
                v.undecided.append("time limit of the unit" if time.time() > v.deadline else "too many undecided paths")
            break
    for o in v.obl.values():
        st = "refuted" if o.failed is not None else "unknown" if o.unknown else "discharged"
        out.obligations.append({"name": o.name, "aux": o.aux, "instances": o.instances, "status": st, "detail": o.failed,
                                "model": o.model, "backend": "z3" if o.core else "simplifier"})
    if shared is not None:
        out.obligations.append({"name": "frame: what connections share isn't written", "aux": True, "instances": v.paths,
                                "status": "refuted" if written else "discharged", "model": None, "backend": "comparison",
                                "detail": ", ".join(dict.fromkeys(written))[:300] or None})
    if v.complete_paths == 0 and not v.loops_cut:
        v.undecided.append("no path reached the end of the unit")
    out.undecided = list(dict.fromkeys(v.undecided))
    out.paths, out.queries, out.solver_time = v.paths, v.queries, v.solver_time
    out.loops = sorted(v.loops_cut)
    out.stubs = sorted(v.stubs)
    out.functions = sorted(v.executed)
    out.wall = time.time() - t0
    return out


def shared_state() -> Any:
    from dv import frame, shadow
    frame.preload(shadow.PKG, os.path.join(shadow.REPO, shadow.PKG), shadow.module)
    try:
        return frame.Frame(shadow.SHADOW)
    except Exception:  # pylint: disable=broad-except
        return None


def where(e: BaseException) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/dv/" not in f.filename] or list(tb)
    return " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno} {f.name}" for f in reversed(fr[-3:])) + (
        " @ " + " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(list(tb)[-3:])))


def put(obj: Any, name: str, value: Any) -> Any:
    """Sets an attribute that the contract knows by name"""
    if not hasattr(obj, name):
        raise Unsupported(f"the contract is about {name}, which isn't there")
    setattr(obj, name, value)
    return value


def misfit(e: BaseException) -> bool:
    """The contract names what the code doesn't have (any more): an attribute, a parameter, a name.  It then decides nothing"""
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        t = o if isinstance(o, type) else type(o)
        return isinstance(o, types.ModuleType) or (t.__module__ or "").split(".")[0] in ("mysql_mimic", "shadow", "contracts", "dv")
    if isinstance(e, TypeError):
        m = re.match(r"'(\w+)' object (is not|has no len|does not support|can't|cannot|doesn't)", str(e)) \
            or re.match(r"(?:object|argument) of type '(\w+)' (has no len|is not)", str(e))
        if m and not real_class(m.group(1), m.group(2)):
            return True  # a stand-in for an object that can't do what the object can
        return bool(re.search(r"\(\) (got an unexpected keyword|got multiple values for|takes \d+ positional|takes no |takes from|missing \d+ required)", str(e)))
    return isinstance(e, ImportError)


def real_class(name: str, what: str) -> bool:
    """Is that the name of a class whose objects are what they are in the code?"""
    if name in ("SInt", "SBool", "SFloat", "NoneType", "function", "method", "generator", "coroutine", "async_generator", "module", "mappingproxy",
                "datetime", "date", "timedelta", "timezone") or hasattr(builtins, name):
        return True
    if name in ("SStr", "SBytes"):
        return what == "does not support"
    return any(hasattr(m, name) for n, m in list(sys.modules.items()) if "mysql_mimic" in n and m is not None)


def u_from_repo(e: BaseException) -> bool:
    """Was it raised by the code, maybe through the standard library?"""
    tb = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    while len(tb) > 1 and tb[-1].startswith(STDLIB) and "site-packages" not in tb[-1]:
        tb.pop()
    return bool(tb) and "mysql_mimic" in tb[-1]


STDLIB = os.path.dirname(os.__file__) + os.sep


def run_concrete(u: Unit, inputs: Optional[dict] = None, choices: Optional[list] = None, rng: Any = None) -> Tuple[str, Any]:
    """("ok"|"skip"|"failed"|"error", detail)"""
    global CTX
    v = Conc(u, inputs, choices, rng)
    CTX = v
    try:
        u.fn(v)
        return "ok", v
    except Skip:
        return "skip", v
    except Failed as e:
        return "failed", (str(e), v.used)
    except Unsupported as e:
        return "error", str(e)
    except Exception as e:  # pylint: disable=broad-except
        if misfit(e):
            return "misfit", f"{type(e).__name__}: {e} [{where(e)}]"
        if u_from_repo(e):
            return "failed", (f"unexpected {type(e).__name__}: {e} [{where(e)}]", v.used)
        return "error", f"{type(e).__name__}: {e} [{where(e)}]"
    finally:
        CTX = None
        v.cleanup()
