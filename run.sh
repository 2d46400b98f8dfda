#!/bin/bash
# ./run.sh C01 [--tier thorough] ; ./run.sh replay FILE
cd "$(dirname "$0")" || exit 2
export REPO="${REPO:-/repo}"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" LC_ALL=C.UTF-8 MPLBACKEND=Agg
export MPLCONFIGDIR="${TMPDIR:-/tmp}/dst-mpl"
export PYTHONPATH="$PWD"
PY="${DST_PYTHON:-/opt/venv/bin/python}"
[ -x "$PY" ] || PY=python3
exec "$PY" -m dst.main "$@"
