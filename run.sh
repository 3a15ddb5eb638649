#!/bin/bash
# usage: bash run.sh <property id> [--replay FILE] [--cases N] [--only I]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m cv.runner "$@"
