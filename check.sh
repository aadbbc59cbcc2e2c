#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Runs the monitors of one property against /repo's working tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
export MPLBACKEND=agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$here" || exit 2
exec "$PY" -X faulthandler -m gfmon.run "$@"
