#!/bin/bash
# check.sh <property id> [--replay FILE]: run one property's check against /repo.
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export HOME="${HOME:-/root}"
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore -m pbt.run "$@"
