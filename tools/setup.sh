#!/bin/bash
# nothing to build: the checks are Python run against /repo's working tree
cd "$(dirname "$0")/.." || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -c "import numpy, scipy, sympy; print('ok')"
