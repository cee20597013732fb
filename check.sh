#!/bin/bash
# check.sh <property> [quick|thorough] : decide one property on /repo's current working tree
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/repo:"$here"
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONWARNINGS=ignore
scratch="$(mktemp -d)"; export MPLCONFIGDIR="$scratch"; export TMPDIR="$scratch"
trap 'rm -rf -- "$scratch"' EXIT
/opt/venv/bin/python -m symtorch.runner "$@"
