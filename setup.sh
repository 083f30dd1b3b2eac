#!/bin/bash
# Nothing to compile: verify that the interpreter, the package under test and the harness import.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python - <<'PY'
import sys, numpy, scipy, astropy, yaml
sys.path.insert(0, '.')
import harness.vf
import specula
print('setup ok', specula.__file__)
PY
