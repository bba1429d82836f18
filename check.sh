#!/bin/bash
# usage: check.sh ID [--tier quick|thorough] [--only PART] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 MPLBACKEND=agg HDF5_USE_FILE_LOCKING=FALSE
PY=/opt/venv/bin/python
cd "$here" && exec "$PY" run.py "$@"
