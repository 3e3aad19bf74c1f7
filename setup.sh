#!/bin/sh
# nothing is compiled; checks that the interpreters the checks use are present
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3-vt -c "import z3, scipy, numpy"
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import bmi, jax"
