"""Writes MANIFEST.json"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import levels  # noqa: E402

TECH = ("contract-based deductive verification: sidecar contracts on the functions of /repo, executed symbolically from the current source, "
        "obligations discharged by z3 function by function; plus the same code in bounded scenarios")
checks = []
for i in range(1, 19):
    p = f"C{i:02d}"
    level, note = levels.LEVEL.get(p, ("exploration", "contracts on some of the functions; the property as a whole by bounded scenarios"))
    checks.append({"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
                   "technique": TECH, "level": level, "level_note": note})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, f, indent=1)
    f.write("\n")
