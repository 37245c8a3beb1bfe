#!/bin/bash
# bash run.sh <property> [quick|thorough] [-v] [--job <json or replay file>]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3
export PYTHONPATH="${E3X_REPO:-/repo}:$PWD"
exec /opt/venv/bin/python -m mc.core "$@"
