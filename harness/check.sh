#!/bin/bash
# bash harness/check.sh <property> [--replay FILE]
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1 HOME="${HOME:-/root}"
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/.." || exit 2
exec /opt/venv/bin/python -W ignore "$here/run.py" "$@"
