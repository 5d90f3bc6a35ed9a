#!/bin/bash
# usage: run.sh <PROPERTY> <quick|thorough>   |   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TF_CPP_MIN_LOG_LEVEL=3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m pysadmon "$@"
