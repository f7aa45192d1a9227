#!/bin/bash
# Nothing to compile: check that the interpreter, the code under test and Hypothesis load.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python - <<'PY'
import os, sys
sys.path.insert(0, os.getcwd())
from vf import boot
boot.boot()
import cvxpy, hypothesis, numpy, rigeo, scipy
assert "CLARABEL" in cvxpy.installed_solvers()
print("rigeo from", rigeo.__file__, "hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "cvxpy", cvxpy.__version__)
PY
