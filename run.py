#!/opt/venv/bin/python
"""run.py <property> [quick|thorough]   |   run.py --replay <file>"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY):
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ.pop("PYTHONPATH", None)
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import boot  # noqa: E402,F401
from symx import runner  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(runner.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(runner.main(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
