#!/bin/sh
# Nothing to build: pure Python.  Verifies that the interpreter, Hypothesis and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "
from fv import env
import hypothesis, numpy, matplotlib
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'matplotlib', matplotlib.__version__)"
