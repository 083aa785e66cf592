#!/bin/bash
# ./run.sh C01 quick|thorough [replay.json]     runs one check against /repo's working tree
V=$(cd "$(dirname "$0")" && pwd)
export KD_REPO=${KD_REPO:-/repo}
export HOME=/root LANG=C.UTF-8 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONHASHSEED=0
W=$(mktemp -d /tmp/kdmc.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
# no bytecode is written into /repo (mc/run.py also refuses to read any from there)
export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$W/numba"
export PYTHONPATH="$KD_REPO:$V" TMPDIR="$W" MC_SCRATCH="$W"
R=$3; [ -n "$R" ] && R=$(realpath "$R")
mkdir -p "$W/cwd" && cd "$W/cwd" || exit 2
/opt/venv/bin/python -W ignore -m mc.run "$1" "${2:-quick}" $R 2>"$W/err"
code=$?
# TensorFlow, torch and matplotlib chatter is only shown when the check itself failed to run
if [ $code -ne 0 ]; then tail -n 60 "$W/err" >&2; fi
exit $code
