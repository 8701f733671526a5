"""./check Cxx [--tier quick|thorough]   |   ./check replay FILE

Decides one property: the contracts of dv/ are discharged from /repo's current source, then the property's scenarios run the
same source as bounded checks.  See DESIGN.md.  Exit 0: held; exit 1 with a VIOLATION line: broken.
"""
from __future__ import annotations

import argparse
import json
import os
import signal
import subprocess
import sys
import time
import traceback
from typing import Any, Dict, List

from lib import runner

VERIF = runner.VERIF
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS")
BUDGET = {"quick": (240, 300), "thorough": (1200, 2400)}  # seconds for (contracts, scenarios)


def findings(prop: str) -> Dict[str, str]:
    out = {}
    with open(FINDINGS) as f:
        for line in f:
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}":
                out[parts[2].partition("=")[2]] = parts[3].strip()
    return out


def known(prop: str) -> List[str]:
    """The listed findings that still fail"""
    out = []
    mod = runner.load(prop)
    for fid, text in findings(prop).items():
        entry = getattr(mod, "KNOWN", {}).get(fid)
        if entry is None:
            continue
        r = subprocess.run([sys.executable, "-c", f"import sys; from lib import runner; m = runner.load({prop!r}); "
                            f"sys.stdout.flush(); r = m.KNOWN[{fid!r}][0](); import os; os._exit(7 if r else 0)"],
                           cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100, check=False)
        if r.returncode == 7:
            out.append(f"{text}")
    return out


def check(prop: str, tier: str, seed: int) -> int:
    t0 = time.time()
    b_dv, b_sc = BUDGET[tier]
    violations: List[str] = []
    listed: List[str] = []
    try:
        listed = known(prop)
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
    for text in listed:
        print(f"KNOWN-FINDING: property={prop} {text}")

    # 1. the contracts
    t1 = time.time()
    reports = contracts(prop, tier, seed, b_dv)
    t_dv = time.time() - t1
    soft: List[str] = []
    for r in reports:
        for x in r.verdicts:
            print(f"obligation failed: {x.unit}: {x.obligation}: {x.detail[:400]} [{x.kind}] {str(x.inputs)[:300]}")
            path = write_dv_replay(prop, r, x)
            if x.kind == "input":
                violations.append(f"VIOLATION property={prop} replay={path}")
            else:
                soft.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        for n in r.notes if r.status == "undecided" else []:
            print(f"undecided: {r.name}: {n.splitlines()[-1][:300]}")

    # 2. the same code in its scenarios
    res = runner.run(prop, tier, seed, b_sc)
    for name, args, msg in res.failures:
        path = runner.write_replay(prop, name, args, msg)
        violations.append(f"VIOLATION property={prop} replay={path}")
        print(f"{name}({', '.join(f'{k}={v!r}' for k, v in args.items())}): {msg.splitlines()[0][:500]}")
    for h in res.harness:
        print("harness:", h)
    if not violations:
        violations = soft[:1]

    level, coverage, assumptions = evidence(prop, tier, reports, res, t_dv)
    write_evidence(prop, tier, seed, level, coverage, t0, len(violations), assumptions)
    for v in dict.fromkeys(violations):
        print(v)
    nobl = sum(len(r.outcome.obligations) for r in reports if r.outcome)
    ndis = sum(o["status"] == "discharged" for r in reports if r.outcome for o in r.outcome.obligations)
    print(f"{prop}: {'violated' if violations else 'held'} ({ndis} of {nobl} obligations of {len(reports)} contracts discharged in {t_dv:.1f} s, "
          f"{sum(res.counts.values())} scenario runs, {time.time() - t0:.1f} s)")
    return 1 if violations else 0


def contracts(prop: str, tier: str, seed: int, budget: float) -> List[Any]:
    try:
        from dv import run
        return run.run(prop, tier, seed, budget)
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        return []


def write_dv_replay(prop: str, r: Any, x: Any) -> str:
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{x.unit}.txt")
    with open(path, "w") as f:
        f.write(f"property: {prop}\nunit: {x.unit}\nobligation: {x.obligation}\nkind: {x.kind}\ninputs: {x.inputs!r}\nchoices: {x.choices!r}\n"
                f"seed: {x.seed!r}\nreplay: cd {VERIF} && ./check replay {path}\n\nfailed obligation: {x.obligation}\n{x.detail}\n\n")
        if r.outcome:
            f.write(f"verifier: {r.outcome.paths} paths, {r.outcome.queries} solver queries, functions {', '.join(r.outcome.functions)}\n")
            for o in r.outcome.obligations:
                f.write(f"  {o['status']:10} {o['name']}" + (f" | {o['detail']} | model {o['model']}" if o["status"] == "refuted" else "") + "\n")
            for n in r.notes:
                f.write(f"  note: {n}\n")
    return path


TRUSTED = [
    "dv/: the rewriting of the source (hooks for calls, comparisons, subscripts, loops) and the semantics it gives to symbolic integers, "
    "byte strings, text, flags, enums, dictionaries and readers; cross-checked by running every contract on concrete values with the unmodified code",
    "z3 (4.x, python bindings)",
    "CPython executes the source as the language reference says; integers are exact in both",
]


def evidence(prop: str, tier: str, reports: List[Any], res: Any, t_dv: float) -> Any:
    from lib import levels
    total = sum(res.counts.values())
    try:
        from dv import core
        U = core.UNITS
    except Exception:  # pylint: disable=broad-except
        U = {}
    bounded = {r.name for r in reports if r.name in U and U[r.name].bounded}
    obl = [dict(o, unit=r.name) for r in reports if r.outcome and r.name not in bounded for o in r.outcome.obligations]
    dis = [o for o in obl if o["status"] == "discharged"]
    in_bounds = [o for r in reports if r.outcome and r.name in bounded for o in r.outcome.obligations]
    proved = [r for r in reports if r.status == "proved" and r.name not in bounded]
    declared = levels.LEVEL.get(prop, ("exploration", ""))[0]
    complete = bool(proved) and all(r.status == "proved" for r in reports)
    level = declared if declared != "proof" or complete else "exploration"
    by_backend: Dict[str, int] = {}
    for o in dis:
        by_backend[o["backend"]] = by_backend.get(o["backend"], 0) + 1
    units = {}
    assumptions = set(levels.ASSUMES.get(prop, []))
    for r in reports:
        u = U.get(r.name)
        units[r.name] = {"status": "held within its bound" if r.name in bounded and r.status == "proved" else r.status,
                         **({"bounded": u.bounded} if u and u.bounded else {}), "contract_of": u.targets if u else [], "obligations": len(r.outcome.obligations) if r.outcome else 0,
                         "paths": r.outcome.paths if r.outcome else 0, "solver_queries": r.outcome.queries if r.outcome else 0,
                         "solver_s": round(r.outcome.solver_time, 2) if r.outcome else 0, "loops_with_invariant": r.outcome.loops if r.outcome else [],
                         "executed": r.outcome.functions if r.outcome else [], "concrete_runs": r.concrete, "bounded_paths": r.bounded_paths,
                         "notes": [n[-400:] for n in r.notes[:4]]}
        if u:
            assumptions.update(u.assumes)
    rule = f"scenarios of checks/{prop.lower()}.py: " + (runner.load(prop).__doc__ or "").strip() + " Every case has its own arguments."
    coverage: Dict[str, Any] = {
        "obligations": len(obl), "discharged": len(dis), "discharged_by": by_backend,
        "checker_cmd": f"./check {prop} --tier {tier}", "trusted_base": TRUSTED,
        "contracts": units, "contracts_proved": len(proved), "contracts_bounded_not_counted_as_proved": len(bounded),
        "bounded_obligations": len(in_bounds), "bounded_obligations_held": sum(o["status"] == "discharged" for o in in_bounds), "contracts_undecided": [r.name for r in reports if r.status == "undecided"],
        "functions_under_contract": sorted({f for n, x in units.items() if n not in bounded for f in x["contract_of"]}),
        "functions_under_bounded_contract": sorted({f for n, x in units.items() if n in bounded for f in x["contract_of"]}),
        "solver_s": round(sum(x["solver_s"] for x in units.values()), 2), "verifier_wall_s": round(t_dv, 2),
        "evaluations": total, "distinct_nontrivial": total, "rule": rule, "samples": res.samples or [f"{o['unit']}: {o['name']}" for o in dis[:5]],
        "scenarios_bounded_not_counted_as_proved": dict(res.counts), "scenarios_complete": res.complete}
    return level, coverage, sorted(assumptions)


def write_evidence(prop: str, tier: str, seed: int, level: str, coverage: dict, t0: float, nviol: int, assumptions: List[str]) -> None:
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}, f, indent=1)


def replay(path: str) -> int:
    head: Dict[str, str] = {}
    with open(path) as f:
        for line in f:
            k, _, v = line.rstrip("\n").partition(": ")
            head.setdefault(k, v)
    if "unit" not in head:
        return runner.replay(path)
    import ast
    import random
    from dv import run
    run.load()
    from dv import core
    seed = ast.literal_eval(head["seed"])
    st, d = core.run_concrete(core.UNITS[head["unit"]], ast.literal_eval(head["inputs"]) if seed is None else None,
                              ast.literal_eval(head["choices"]), random.Random(seed) if seed is not None else None)
    print(st, d[0] if st == "failed" else d if st == "error" else "")
    if st != "failed":
        print(open(path).read())
    return 1 if st == "failed" else 0


def main() -> int:
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return check(a.prop.upper(), a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
