#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> | check.sh --replay <file>
# Runs one property check against the working tree of /repo (imported in place).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
unset PYTHONPATH
export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TF_ENABLE_ONEDNN_OPTS=0
export GRPC_VERBOSITY=ERROR ABSL_MIN_LOG_LEVEL=3 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$here/pbt/main.py" "$@"
