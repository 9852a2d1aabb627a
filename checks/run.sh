#!/bin/bash
# Runs a check under the interpreter that has the package's dependencies.
cd "$(dirname "$0")/.." || exit 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python checks/run.py "$@"
