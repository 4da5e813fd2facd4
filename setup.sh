#!/bin/bash
# nothing to build: check that the interpreter, numpy and z3 are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0,'.')
import numpy; from dv import prove
print('numpy', numpy.__version__)"
