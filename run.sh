#!/bin/bash
# run.sh <property id> [--tier quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY -W ignore run.py "$@"
