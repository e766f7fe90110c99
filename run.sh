#!/bin/bash
# Entry point of all checks: fixes the environment and starts the harness.
# usage: run.sh <property> [--replay FILE | --selftest ...]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${SIM_HASHSEED:-0}" MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 HOME=/root TZ=UTC
export PYTHONPATH="$here:${MARXS_REPO:-/repo}" PYTHONWARNINGS=ignore
cd "$here" || exit 3
exec /opt/venv/bin/python -W ignore -m sim "$@"
