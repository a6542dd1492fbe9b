#!/bin/bash
# bash run.sh ID [--tier quick|thorough] [--job NAME] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VERIF_REPO:-/repo}" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/pypyvenv/bin/python -W ignore -m mc.run "$@"
