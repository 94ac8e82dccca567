#!/bin/bash
# check.sh <property> [quick|thorough]   -- decide one property against /repo
cd "$(dirname "$(readlink -f "$0")")" || exit 2
id="${1:?usage: check.sh ID [quick|thorough]}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 LANG=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
exec /opt/venv/bin/python -B -W ignore harness/main.py "$id"
