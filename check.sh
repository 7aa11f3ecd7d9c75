#!/bin/bash
# bash check.sh PROPERTY [quick|thorough] | bash check.sh --replay FILE
export PETSC_DIR=${PETSC_DIR:-/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/mpl-verif}
exec /opt/venv/bin/python -P "$(dirname "$(realpath "$0")")/lib/runner.py" "$@"
