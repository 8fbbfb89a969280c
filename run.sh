#!/bin/bash
# bash run.sh <property> [quick|thorough]     run one check
# bash run.sh --replay <file>                 repeat one violation
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$REPO/src:$HERE" PYTHONWARNINGS=ignore
export MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/verif_mpl.$$}"
cd "$HERE" || exit 2
/opt/venv/bin/python -m vlib "$@"
rc=$?
case "$MPLCONFIGDIR" in /tmp/verif_mpl.*) rm -rf "$MPLCONFIGDIR" ;; esac
exit $rc
