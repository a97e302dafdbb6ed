#!/bin/bash
# usage: run.sh <check module, e.g. c01> [args...]
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export CHAINER_TYPE_CHECK=1
# VERIF_SRC: a scratch copy to try planted bugs on; never set by the checks
export PYTHONPATH="$PWD${VERIF_SRC:+:$VERIF_SRC}"
unset PYTHONSTARTUP
name=$1; shift
exec /opt/venv/bin/python -B "checks/$name.py" "$@"
