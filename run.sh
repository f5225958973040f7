#!/bin/bash
# Runs one check: ./run.sh C01 [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)
# The code under test is imported from /repo's working tree; stale byte code is never read.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONPATH="/repo:$here" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONNOUSERSITE=1 TZ=UTC LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m vf.run "$@"
