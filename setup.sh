#!/bin/bash
# Nothing is compiled: checks that the interpreter, numpy, scipy, mpi4py-free
# engine and z3 are usable and that the code under test can be loaded.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY -W ignore -B -c "
import sys; sys.path.insert(0, '.')
from symx.z3load import z3
from symx import harness
e = harness.SymEnv.__mro__
s = z3.Solver(); x = z3.Real('x'); s.add(x * x < 0)
assert s.check() == z3.unsat
import numpy, scipy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
"
