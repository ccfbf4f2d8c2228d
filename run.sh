#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay FILE]
# Runs a check directly on the working tree of /repo (pure python, nothing to
# compile); byte code goes to a throw-away directory so that every run sees
# the current sources.
here="$(cd "$(dirname "$0")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLCONFIGDIR="$(mktemp -d /tmp/verif_mpl.XXXXXX)"
python="${VERIF_PYTHON:-/opt/venv/bin/python}"
if [ "$1" = --setup ]; then
    # nothing to build: see that everything needed is there
    "$python" -c "import numpy, scipy, qutip, filter_functions, simanneal, matplotlib, qopt; print('ok')"
else
    "$python" "$here/run.py" "$@"
fi
code=$?
rm -rf "$MPLCONFIGDIR"
exit $code
