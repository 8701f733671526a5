"""Runs the units of one property on all cores and decides about them.

C08 also takes the frame condition (dv/frame.py) of the units of all other properties.

    proved      every obligation was discharged
    input       an obligation was refuted, and on the model's values the unmodified code breaks the contract
    noinput     an obligation was refuted that isn't about the proof itself, and its model cannot be run (an abstract state)
    undecided   anything else: no answer of the solver, code the verifier has no semantics for, a failed invariant, a model the
                real code survives.  The unit then runs bounded (loops unrolled) and on random concrete values
"""
from __future__ import annotations

import importlib
import multiprocessing
import multiprocessing.connection
import os
import pkgutil
import random
import resource
import signal
import sys
import time
import traceback
from typing import Any, Dict, List, Optional

REPO = os.environ.get("VERIF_REPO", "/repo")
MEM = 5 << 30
FRAME = "C08"  # the property that is about all functions: what they write


def load() -> None:
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from dv import core  # noqa: F401 (finds z3)
    import contracts
    for mi in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda m: m.name):
        importlib.import_module("contracts." + mi.name)


class Verdict:
    def __init__(self, unit: str, kind: str, obligation: str, detail: str, inputs: Optional[dict] = None, choices: Optional[list] = None,
                 seed: Optional[int] = None):
        self.unit, self.kind, self.obligation, self.detail = unit, kind, obligation, detail
        self.inputs, self.choices, self.seed = inputs, choices, seed


class UnitReport:
    def __init__(self, name: str):
        self.name = name
        self.status = "undecided"
        self.outcome: Any = None
        self.verdicts: List[Verdict] = []
        self.notes: List[str] = []
        self.concrete = 0
        self.bounded_paths = 0
        self.frame_only = False


class Timeout(BaseException):
    pass


def _alarm(*_: Any) -> None:
    raise Timeout()


def limited(seconds: float, f: Any) -> Any:
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    except Timeout:
        return ("error", f"no end within {seconds:.0f} s")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def concrete_runs(u: Any, seconds: float, limit: int, seed: int, rep: UnitReport) -> None:
    from dv import core
    t = time.time()
    for i in range(limit):
        if time.time() - t > seconds:
            break
        s = seed * 1000003 + i
        st, d = limited(20, lambda: core.run_concrete(u, rng=random.Random(s)))  # pylint: disable=cell-var-from-loop
        if st == "failed":
            rep.verdicts.append(Verdict(u.name, "input", d[0].split(":")[0], d[0], d[1], None, s))
            return
        if st == "ok":
            rep.concrete += 1
        elif st in ("error", "misfit") and len(rep.notes) < 3:
            rep.notes.append(f"concrete run: {d}")


def decide(u: Any, tier: str, seed: int, budget: float, frame_only: bool = False) -> UnitReport:
    from dv import core
    rep = UnitReport(u.name)
    t0 = time.time()
    out = rep.outcome = core.explore(u, min(u.budget * (1 if tier == "quick" else 6), budget * 0.7), frame_only=frame_only)
    if frame_only:
        rep.frame_only = True
        rep.status = "proved" if out.proved else "undecided"
        rep.notes += [f"{o['name']}: {o['detail']}" for o in out.obligations if o["status"] != "discharged"] + out.undecided
        return rep
    if out.proved:
        rep.status = "proved"
        if u.concrete:
            concrete_runs(u, 1.0 if tier == "quick" else 20.0, 60 if tier == "quick" else 3000, seed, rep)
        if rep.verdicts:
            rep.status = "input"
        return rep
    for o in out.obligations:
        if o["status"] != "refuted":
            continue
        unexpected = o["name"].startswith("no unexpected")
        m = o["model"] or {}
        r = ("skip", None)
        if u.concrete and m:
            r = limited(60, lambda: core.run_concrete(u, m["inputs"], m["choices"]))  # pylint: disable=cell-var-from-loop
        if r[0] == "failed":
            rep.verdicts.append(Verdict(u.name, "input", o["name"], r[1][0], r[1][1], m["choices"]))
        elif o["aux"] or r[0] in ("ok", "misfit"):
            rep.notes.append(f"{o['name']}: refuted" + (" (the model is harmless)" if r[0] == "ok" else f" (the contract doesn't fit: {r[1]})" if r[0] == "misfit" else "")
                             + f": {o['detail']}")
        elif unexpected:
            rep.notes.append(f"{o['name']}: refuted, not reproduced: {o['detail']}")
        else:
            rep.verdicts.append(Verdict(u.name, "noinput", o["name"], f"{o['detail'] or ''} {r[1] if r[0] == 'error' else ''}".strip(), m.get("inputs"), m.get("choices")))
    rep.notes += out.undecided
    left = budget - (time.time() - t0)
    if not any(x.kind == "input" for x in rep.verdicts):
        if u.concrete and left > 1:
            concrete_runs(u, min(5.0 if tier == "quick" else 60.0, left / 2), 3000, seed, rep)
        left = budget - (time.time() - t0)
        if not any(x.kind == "input" for x in rep.verdicts) and u.loops and left > 2:
            b = core.explore(u, min(left * 0.8, 60 if tier == "quick" else 600), bounded=True)
            rep.bounded_paths = b.paths
            for o in b.obligations:
                if o["status"] == "refuted" and o["model"] and u.concrete:
                    m = o["model"]
                    r = limited(30, lambda: core.run_concrete(u, m["inputs"], m["choices"]))  # pylint: disable=cell-var-from-loop
                    if r[0] == "failed":
                        rep.verdicts.append(Verdict(u.name, "input", o["name"], r[1][0], r[1][1], m["choices"]))
                        break
    if u.internal:
        # the contract of an internal function: an input of it isn't an input of the system
        for x in rep.verdicts:
            if x.kind == "input":
                x.kind = "internal"
    kinds = [x.kind for x in rep.verdicts]
    rep.status = "input" if "input" in kinds else "noinput" if kinds else "undecided"
    return rep


def _job(name: str, tier: str, seed: int, budget: float, conn: Any, frame_only: bool) -> None:
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(6000)
    sys.stdout = sys.stderr = open(os.devnull, "w")
    from dv import core
    try:
        rep = decide(core.UNITS[name], tier, seed, budget, frame_only)
    except BaseException:  # pylint: disable=broad-except
        rep = UnitReport(name)
        rep.notes.append(traceback.format_exc())
    try:
        conn.send(rep)
    except Exception as e:  # pylint: disable=broad-except
        r2 = UnitReport(name)
        r2.notes.append(f"{type(e).__name__}: {e}")
        conn.send(r2)
    conn.close()
    os._exit(0)


def run(prop: Optional[str], tier: str, seed: int, budget: float, workers: int = 8, names: Optional[List[str]] = None) -> List[UnitReport]:
    """Reports of the units of a property (or of the named ones)"""
    from dv import core
    t0 = time.time()
    load()
    todo = [u for u in core.UNITS.values() if (names is None and (prop in u.props or prop == FRAME and u.targets)) or (names is not None and u.name in names)]
    todo.sort(key=lambda u: (-u.weight, u.name))
    ctx = multiprocessing.get_context("fork")
    live: Dict[Any, Any] = {}
    done: Dict[str, UnitReport] = {}
    order = [u.name for u in todo]
    while todo or live:
        left = budget - (time.time() - t0)
        while todo and len(live) < workers:
            u = todo.pop(0)
            if left < 3:
                r = done[u.name] = UnitReport(u.name)
                r.notes.append("no time left")
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_job, args=(u.name, tier, seed, left, b, names is None and prop not in u.props))
            p.start()
            b.close()
            live[a] = (p, u)
        for a in multiprocessing.connection.wait(list(live), timeout=1.0) if live else []:
            p, u = live.pop(a)
            try:
                done[u.name] = a.recv()
            except EOFError:
                r = done[u.name] = UnitReport(u.name)
                p.join(5)
                r.notes.append(f"the verifier died (exit code {p.exitcode})")
            p.join(5)
            a.close()
        if time.time() - t0 > budget + 20:
            for a, (p, u) in list(live.items()):
                p.kill()
                p.join(5)
                live.pop(a)
                r = done[u.name] = UnitReport(u.name)
                r.notes.append("time limit")
    return [done[n] for n in sorted(order)]


if __name__ == "__main__":
    args = sys.argv[1:]
    reps = run(None, "quick", 1, 600, names=None) if False else []
    load()
    from dv import core as _c
    for rep in run(None, "quick", 1, 900, names=[n for n in _c.UNITS if not args or any(n.startswith(x) for x in args)]):
        o = rep.outcome
        print(f"{rep.status:9} {rep.name}: {len(o.obligations) if o else 0} obligations, {o.paths if o else 0} paths, {o.wall if o else 0:.1f}s, {rep.concrete} concrete")
        for x in rep.verdicts:
            print("   ", x.kind, x.obligation, "|", x.detail[:300], "|", str(x.inputs)[:300])
        for x in rep.notes:
            print("    note:", x[:400])
