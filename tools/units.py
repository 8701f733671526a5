"""Writes the list of contract units into DESIGN.md, between its markers"""
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
from dv import run  # noqa: E402

run.load()
from dv import core  # noqa: E402

rows = []
for n, u in sorted(core.UNITS.items()):
    doc = re.sub(r"\s+", " ", (u.fn.__doc__ or "").strip()).replace("|", "\\|")
    doc = doc if len(doc) < 330 else doc[:327] + "…"
    rows.append(f"| {n} | {' '.join(u.props)} | {', '.join(u.targets)} | {'yes' if u.internal else ''} | {u.bounded or ''} | {doc} |")
text = (f"{len(core.UNITS)} units, {sum(bool(u.bounded) for u in core.UNITS.values())} of them bounded.\n\n"
        "| unit | properties | functions | internal | bound | contract |\n|--|--|--|--|--|--|\n" + "\n".join(rows))
with open("DESIGN.md") as f:
    d = f.read()
a, _, rest = d.partition("<!-- units -->")
_, _, b = rest.partition("<!-- /units -->")
with open("DESIGN.md", "w") as f:
    f.write(a + "<!-- units -->\n" + text + "\n<!-- /units -->" + b)
