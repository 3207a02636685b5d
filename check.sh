#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] | check.sh PROPERTY replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONPATH="$PWD"
export ARBORIS_REPO="${ARBORIS_REPO:-/repo}"
SCRATCH="$(mktemp -d)"; export RV_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH" TMPDIR="$SCRATCH"
trap 'rm -rf "$SCRATCH"' EXIT
/opt/venv/bin/python -B -m rv.run "$@"
