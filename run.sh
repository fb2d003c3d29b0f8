#!/bin/bash
# run.sh PID [--replay FILE | --family NAME | -n N]: run one check against /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME="${HOME:-/root}" LANG=C.UTF-8 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= TF_ENABLE_ONEDNN_OPTS=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
pid="$1"; shift
exec /opt/venv/bin/python "checks/$(echo "$pid" | tr 'P' 'p').py" "$@"
