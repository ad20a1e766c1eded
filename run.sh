#!/bin/bash
# run.sh ID [--tier quick|thorough]   -- decide one property of /repo's current working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPYCACHEPREFIX=/tmp/.copulae-mc-nopyc
export OMP_WAIT_POLICY=passive OMP_DYNAMIC=false
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
