#!/bin/bash
# run one check: checks/run.sh C01 [quick|thorough]
d=$(cd "$(dirname "$0")/.." && pwd)
export PYTHONPATH=${EML_REPO:-/repo}:$d/lib PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 PYTHONWARNINGS=ignore PYTHONHASHSEED=0 OMP_NUM_THREADS=2
cd "$d" && exec /opt/venv/bin/python "checks/$1.py" "${@:2}"
