#!/bin/sh
# nothing to build: the checks import prodsys from /repo's working tree
cd "$(dirname "$0")" || exit 3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "import dst.core" 
