"""Import set-up: the code under test comes from /repo's working tree, the
solver from the installed tool environment; nothing is written into /repo."""
import os
import sys
import tempfile

REPO = os.environ.get("PYU_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
# Never trust byte code lying about in /repo: look for it in an empty place.
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "symx-no-pyc-%d" % os.getpid())

if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)

if not os.path.exists(os.path.join(REPO, "pyudunits2", "_version.py")):
    # git-ignored build product; only __version__ is read from it
    import types

    _m = types.ModuleType("pyudunits2._version")
    _m.__version__ = "0+unbuilt"
    sys.modules["pyudunits2._version"] = _m

import pyudunits2  # noqa: E402

assert os.path.realpath(pyudunits2.__file__).startswith(
    os.path.realpath(REPO) + os.sep
), pyudunits2.__file__
