#!/bin/sh
# Nothing to compile: the checks run /repo's Python sources as they are.  Checks that the interpreter and the sources are importable.
cd "$(dirname "$0")" || exit 2
NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import numpy, pandas, tables, numba; print('setup ok')"
