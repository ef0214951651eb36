#!/bin/bash
# bash check.sh ID [extra arguments for pbt/main.py]
# Runs one property's check against /repo's working tree (nothing to compile:
# the package is imported from there), with the interpreter build.sh uses.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 PYTHONIOENCODING=utf-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/pypyvenv/bin/python pbt/main.py "$@"
