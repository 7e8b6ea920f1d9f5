#!/bin/bash
# Nothing to compile: check that the interpreter, bmi and the simulator import, offline.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
PYTHONPATH=/repo/src:. exec /opt/venv/bin/python -c "import sys; assert sys.version_info >= (3, 12), sys.version
import bmi, sim.runner, sim.session; print('ok')"
