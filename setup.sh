#!/bin/bash
# Nothing to build ahead: every check generates and compiles from /repo's working tree. Verify the tools are there.
set -e
cd "$(dirname "$(readlink -f "$0")")"
command -v gcc clang make >/dev/null
export HOME="${HOME:-/root}" LANG=C.UTF-8 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import onnx, onnxruntime, torch, numpy"
mkdir -p evidence
