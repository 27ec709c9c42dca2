#!/bin/bash
# run.sh <property> [quick|thorough] [extra args]: run one check against /repo.
cd "$(dirname "$0")" || exit 2
prop=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
scratch=$(mktemp -d "${TMPDIR:-/tmp}/mc-$prop-XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export VERIF_TIER=$tier
export NUMBA_CACHE_DIR=$scratch/numba PYTHONPYCACHEPREFIX=$scratch/pyc PYTHONDONTWRITEBYTECODE=1
export MC_SCRATCH=$scratch JOBLIB_TEMP_FOLDER=$scratch
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=2
export PYTHONHASHSEED=0 PYTHONPATH=$PWD
unset NUMBA_DISABLE_JIT
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -W ignore -m mc.main "$prop" --tier "$tier" "$@"
