#!/bin/bash
# run.sh check Cnn [quick|thorough]   |   run.sh replay FILE [python]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
case "$1" in
  replay) exec "${3:-/opt/venv/bin/python}" -m mc.main replay "$(realpath "$2")";;
  *) exec python3-vt -m mc.main "$@";;
esac
