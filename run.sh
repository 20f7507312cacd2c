#!/bin/bash
# run.sh CHECK [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH PYTHONPYCACHEPREFIX NUMBA_CACHE_DIR
[ -n "$2" ] && export VERIF_TIER=$2
PY=/opt/venv/bin/python
cd "$here" || exit 1
exec "$PY" "$here/run_check.py" "$1"
