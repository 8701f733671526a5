"""python -m dv.dev [unit prefix ...]: run units and print what happened"""
import importlib, os, pkgutil, random, sys, time
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import contracts
from dv import core
for mi in pkgutil.iter_modules(contracts.__path__):
    importlib.import_module("contracts." + mi.name)
def short(x):
    if isinstance(x, dict): return "{" + ", ".join(f"{k}: {short(y)}" for k, y in x.items()) + "}"
    r = repr(x)
    return r if len(r) < 120 else r[:60] + f"...({len(x) if hasattr(x, '__len__') else ''})"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
for name, u in sorted(core.UNITS.items()):
    if args and not any(name.startswith(a) for a in args):
        continue
    o = core.explore(u, bounded="-b" in sys.argv)
    bad = [x for x in o.obligations if x["status"] != "discharged"]
    print(("PROVED " if o.proved else "------ ") + f"{name}: {len(o.obligations)} obligations, {o.paths} paths, {o.queries} queries, {o.wall:.1f}s")
    for x in bad:
        print("   ", x["status"], "aux" if x["aux"] else "", x["name"], "|", x["detail"], "|", short(x["model"])[:900])
    for x in o.undecided:
        print("    undecided:", x[:1000])
    if u.concrete and "-c" in sys.argv:
        rng = random.Random(1)
        res = {}
        t = time.time()
        for i in range(200):
            st, d = core.run_concrete(u, rng=rng)
            res[st] = res.get(st, 0) + 1
            if st in ("failed", "error") and res[st] == 1:
                print("   concrete", st, str(d)[:900])
            if time.time() - t > 5: break
        print("    concrete:", res)
