#!/bin/bash
# usage: check.sh <property> [quick|thorough] | replay <file> | selftest ...
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${DST_HASHSEED:-0}
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python -m dst.main "$@"
