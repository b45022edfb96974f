#!/bin/bash
# Nothing to compile: the checks import /repo's working tree in place.  This
# only verifies that the interpreter, Hypothesis and the package are there.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '$here/pbt')
import harness, hypothesis, jax, numpy; print('ok', hypothesis.__version__, jax.__version__)"
