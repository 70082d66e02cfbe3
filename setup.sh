#!/bin/bash
# Nothing has to be built: checks import the code from the working tree. Just make sure
# that what they need is there.
cd "$(dirname "$0")" || exit 2
export QT_QPA_PLATFORM=offscreen PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence replay
cd / && PYTHONPATH=${VERIF_REPO:-/repo} "$PY" -c "import collagraph, observ"
