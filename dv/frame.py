"""The frame condition of every function under contract: the state that all connections share (globals, classes, default arguments
and whatever they hold) is not written.  It is compared before and after every path of every unit."""
from __future__ import annotations

import itertools
import os
import types
from typing import Any, Dict, List, Tuple

LEAVES = (int, float, str, bytes, bool, type(None), types.ModuleType, types.BuiltinFunctionType, property)


class Frame:
    """What the modules hold"""

    def __init__(self, mods: Dict[str, Any]):
        self.cells: List[Tuple[str, Any, Any]] = []
        self.seen: Dict[int, Any] = {}
        self.depth = 0
        for name, m in sorted(mods.items()):
            short = name.rpartition(".")[2]
            self.put(short, vars(m), {k: x for k, x in vars(m).items() if k not in ("__builtins__",)})
            for k, x in vars(m).items():
                if k not in ("__builtins__",):
                    self.walk(f"{short}.{k}", x, m)

    def put(self, label: str, holder: Any, content: Any) -> None:
        self.cells.append((label, holder, content))

    def walk(self, label: str, x: Any, m: Any) -> None:
        if isinstance(x, LEAVES) or id(x) in self.seen:
            return
        self.seen[id(x)] = x
        if isinstance(x, (dict, list, set, bytearray)):
            c = type(x)(x) if type(x) in (dict, list, set, bytearray) else dict(x) if isinstance(x, dict) else list(x)
            self.put(label, x, c)
        if isinstance(x, dict):
            for k, y in list(x.items()):
                self.walk(f"{label}[{k!r}]", y, m)
        elif isinstance(x, (list, tuple, set, frozenset)):
            for i, y in enumerate(x):
                self.walk(f"{label}[{i}]", y, m)
        elif isinstance(x, itertools.count):
            self.put(label, x, repr(x))
        elif isinstance(x, types.FunctionType):
            if x.__globals__ is vars(m):
                for i, y in enumerate((x.__defaults__ or ()) + tuple((x.__kwdefaults__ or {}).values())):
                    self.walk(f"{label}(default {i})", y, m)
                for i, cell in enumerate(x.__closure__ or ()):
                    try:
                        y = cell.cell_contents
                    except ValueError:
                        continue
                    self.put(f"{label}(closure {i})", cell, y)
                    self.walk(f"{label}(closure {i})", y, m)
        elif isinstance(x, (staticmethod, classmethod)):
            self.walk(label, x.__func__, m)
        elif isinstance(x, type):
            if getattr(x, "__module__", "").startswith(("shadow.", "mysql_mimic")) or x.__dict__.get("__module__") == m.__dict__.get("__name__"):
                own = members(x)
                self.put(label, x, own)
                for k, y in own.items():
                    self.walk(f"{label}.{k}", y, m)
        elif type(x).__module__.startswith(("shadow.", "mysql_mimic")) and hasattr(x, "__dict__"):
            self.put(label, vars(x), dict(vars(x)))
            for k, y in vars(x).items():
                self.walk(f"{label}.{k}", y, m)

    def changes(self) -> List[str]:
        out = []
        for label, x, old in self.cells:
            if isinstance(x, types.CellType):
                same = x.cell_contents is old
            elif isinstance(x, itertools.count):
                same = repr(x) == old
            elif isinstance(x, type):
                d = members(x)
                same = len(d) == len(old) and all(k in d and d[k] is y for k, y in old.items())
            elif isinstance(x, dict):
                n = len(x) - ("__builtins__" in x and "__builtins__" not in old)
                same = n == len(old) and all(k in x and x[k] is y for k, y in old.items())
            elif isinstance(x, list):
                same = len(x) == len(old) and all(a is b for a, b in zip(x, old))
            elif isinstance(x, (set, bytearray)):
                same = x == old
            else:
                same = True
            if not same:
                out.append(label)
        return out


    def restore(self) -> None:
        """As it was: paths don't depend on each other"""
        for _, x, old in self.cells:
            if isinstance(x, types.CellType):
                x.cell_contents = old
            elif isinstance(x, type):
                for k in members(x):
                    if k not in old:
                        delattr(x, k)
                for k, y in old.items():
                    if members(x).get(k, x) is not y:
                        setattr(x, k, y)
            elif isinstance(x, dict):
                keep = x.get("__builtins__", None)
                x.clear()
                x.update(old)
                if keep is not None:
                    x["__builtins__"] = keep
            elif isinstance(x, (list, bytearray)):
                x[:] = old
            elif isinstance(x, set):
                x.clear()
                x.update(old)


def members(x: type) -> Dict[str, Any]:
    """What a class holds, without what Python itself keeps there (an enumeration remembers the combinations of flags it has seen)"""
    return {k: y for k, y in vars(x).items() if not k.startswith(("_abc", "__", "_value2member", "_member_", "_unhashable", "_hashable"))}


def preload(package: str, path: str, module: Any) -> None:
    for f in sorted(os.listdir(path)):
        if f.endswith(".py"):
            try:
                module(package if f == "__init__.py" else package + "." + f[:-3])
            except BaseException:  # pylint: disable=broad-except
                pass
