#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--replay FILE]
# Runs the check of one property against /repo's working tree.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/lib/run.py" "$@"
