#!/bin/sh
# Nothing is built ahead of time: every check reads /repo's current source.
# This only confirms that the interpreter, the solver and the code are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -c "
from symx import boot, engine, patches
import sympy, numpy, lxml, z3
s = z3.Solver(); x = z3.Int('x'); s.add(x > 1, x < 3)
assert s.check() == z3.sat
print('ok: z3', z3.get_version_string(), 'sympy', sympy.__version__)
"
