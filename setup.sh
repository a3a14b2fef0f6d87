#!/bin/bash
# nothing to build: make sure that the pieces the checks need are importable
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
/opt/venv/bin/python -W ignore - <<'EOF'
import sys
sys.path.insert(0, "standins")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, galsim, sep, numba, esutil, ngmix, meds, sxdes  # noqa
print("setup ok: hypothesis", hypothesis.__version__)
EOF
