#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough]   (run in /verif)
cd "$(dirname "$0")" || exit 3
export HOME=/root PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONNOUSERSITE=1
export MPLCONFIGDIR="${TMPDIR:-/tmp}/waxv-mpl" NUMBA_CACHE_DIR="${TMPDIR:-/tmp}/waxv-numba" TF_CPP_MIN_LOG_LEVEL=3
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" OMP_NUM_THREADS=1
unset PYTHONPATH JAX_ENABLE_X64
exec /opt/venv/bin/python -W ignore -m vlib.runner "$@"
