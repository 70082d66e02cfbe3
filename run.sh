#!/bin/bash
# Usage: run.sh <ID> quick|thorough [--replay FILE] [--case N] [--cases N]
# Runs the monitor of one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export QT_LOGGING_RULES='*=false' XDG_RUNTIME_DIR=${XDG_RUNTIME_DIR:-/tmp}
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_TIER=$2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m lib.main "$@"
