#!/bin/bash
# Nothing to build: checks that the interpreter, z3 and the package import.
cd "$(dirname "$0")/.." || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, scipy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy', scipy.__version__)
P
