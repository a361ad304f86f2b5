#!/bin/bash
# pysim.sh <main.py arguments>: the Python simulator on the port in /repo's working tree, tracked byte code neither read nor written
HERE=$(cd "$(dirname "$0")" && pwd)
PY=/opt/vp/venv/bin/python
[ -x "$PY" ] && "$PY" -c 'import numpy' 2>/dev/null || PY=python3-vt
export PYTHONPATH=${PYSIM_REPO:-/repo}/python_ai PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec "$PY" "$HERE/main.py" "$@"
