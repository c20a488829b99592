#!/bin/bash
# tools/py.sh FILE: run a scratch script with the environment of the checks
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0 OMP_NUM_THREADS=1 TQDM_DISABLE=1
export PYTHONPATH=${VP_REPO:-/repo}/src:/verif:/verif/.build/vendor
exec /opt/venv/bin/python "$@"
