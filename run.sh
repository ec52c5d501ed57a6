#!/bin/bash
# bash run.sh <property> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 3
export HOME="${HOME:-/root}" LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONPATH="/repo:$PWD"
exec /opt/venv/bin/python -W ignore -m harness.main "$@"
