#!/bin/bash
# Nothing to compile: checks read /repo's source directly.  Verify the tools.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, Cython, z3
print("numpy", numpy.__version__, "Cython", Cython.__version__, "z3", z3.get_version_string())
P
