#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8 PYTHONHASHSEED=0 MPLBACKEND=Agg
export PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
id=$1; shift
exec /opt/venv/bin/python "$here/lib/main.py" "$id" "$@"
