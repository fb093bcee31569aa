#!/bin/bash
# usage: run_check.sh <property id> ; VERIF_TIER=quick|thorough, VERIF_SEED
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 TZ=UTC MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2 NUMBA_NUM_THREADS=2
exec /opt/venv/bin/python -W ignore -m checks."$1"
