#!/bin/bash
# Nothing to build ahead of time: each check builds what it needs from /repo.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import jax, flax, numpy, sympy" && gcc --version | head -1
