#!/bin/bash
# usage: check.sh <PROPERTY-ID> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONPATH=${VERIF_REPO:-/repo}
export SEYFERT_INPUT_DATA=${VERIF_REPO:-/repo}/seyfert/data/input_data
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMBA_CACHE_DIR=/tmp/vnumba_$$
/opt/venv/bin/python check.py "$@"
rc=$?
rm -rf "/tmp/vnumba_$$"
exit $rc
