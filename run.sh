#!/bin/bash
# usage: run.sh <property id> [--replay file] [--case i,j] [--tier quick|thorough] [-v]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec python3-vt lib/vf.py "$@"
