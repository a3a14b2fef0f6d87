#!/bin/bash
# check.sh <ID> [args]: run one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
# accesses outside of an array are errors
export NUMBA_BOUNDSCHECK=1
export NUMBA_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export HYPOTHESIS_STORAGE_DIRECTORY=/tmp/verif-hypothesis-$$
cd "$here" || exit 5
/opt/venv/bin/python -W ignore run_check.py "$@"
rc=$?
rm -rf "/tmp/verif-hypothesis-$$"
exit $rc
