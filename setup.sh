#!/bin/bash
# Nothing to compile: verify that the interpreter and the code under test are importable.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$here" || exit 2
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import numpy, scipy, mpmath; print('numpy', numpy.__version__, 'scipy', scipy.__version__)"
