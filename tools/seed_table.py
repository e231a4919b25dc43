"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = set("b05 b10 b13 b14 b15 b35 b36 b37 b43 b46 b50".split())
LATE |= set(open(os.path.join(ROOT, "tools", "strengthened.txt")).read().split())
MISSED = set(open(os.path.join(ROOT, "tools", "missed.txt")).read().split())
rows = ["| bug | check | breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    k = d.split("-")[0]
    mark = " +" if k in LATE else ""
    caught = m["property"] if k not in MISSED else f"({m['property']}: not caught)"
    rows.append(f"| {d}{mark} | {caught} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "<!-- seeds -->" in s:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: block, s, flags=re.S)
else:
    s = s.replace("SEEDS\n", block + "\n")
open(p, "w").write(s)
