#!/bin/bash
# Nothing to compile: the harness is pure Python and imports marxs from /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
cd "$here" && PYTHONPATH="$here:${MARXS_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg /opt/venv/bin/python -W ignore -c "
from sim import core
for p in ('c03',): core.load(p)
print('harness ready')"
