#!/bin/bash
# usage: check.sh <property id> [quick|thorough]      run one check
#        check.sh --replay <file>                     re-run one saved failing case
# Runs against /repo's working tree (pure Python: nothing has to be built).
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d /tmp/verif_check_XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
export VERIF_SCRATCH="$scratch"
export PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" CUDA_VISIBLE_DEVICES=
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_HOME="$here" VERIF_REPO="$repo"
export TMPDIR="$scratch"
unset PYTHONSTARTUP PYTHONHOME
cd "$scratch" || exit 3
py=/opt/venv/bin/python
"$py" "$here/lib/run.py" "$@"
rc=$?
exit $rc
