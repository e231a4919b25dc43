"""MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
TECH = (
    "path-exhaustive symbolic execution of the real Python code (inputs are z3 variables, every "
    "branch decided by z3), assertions discharged by z3 for all values on each path; counterexamples "
    "replayed on the unmodified code"
)
DEFAULT = (
    "Holds for every value of the symbolic inputs within the bounds listed in the evidence file; trusts z3, "
    "sympy's evaluation order, the CPython interpreter and the stubs listed in the evidence."
)
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python run.py {i} quick",
                "thorough_cmd": f"/opt/venv/bin/python run.py {i} thorough",
                "technique": TECH,
                "level": "model_checking",
                "level_note": NOTES.get(i, DEFAULT),
            }
        )
    else:
        na.append({"property": i, "reason": NOTES.get(i, "not built yet")})
json.dump(
    {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: names are re-bound in the checking process only (symx/patches.py).",
    },
    open(os.path.join(ROOT, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks", len(na), "not claimed")
