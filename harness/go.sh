#!/bin/sh
# go.sh C01 [args]: run one bounded check by hand
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(dirname "$0")/run.py" "$@"
