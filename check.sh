#!/bin/bash
# usage: check.sh <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
exec /opt/venv/bin/python -m harness.main "$@"
