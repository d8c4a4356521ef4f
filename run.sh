#!/bin/bash
# run.sh PROPERTY quick|thorough [--replay FILE] [-v] [--sub NAME] [--cases N]
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONHOME PYTHONPATH
cd "$(dirname "$0")" || exit 3
if [ "${*/--replay/}" != "$*" ]; then
    H=$(mktemp -d); mkdir "$H/.pfa"
    HOME="$H" VERIF_WORK="$H" PYTHONPATH=/repo /opt/venv/bin/python -W ignore lib/runner.py "$@"
    rc=$?
    case "$H" in /tmp/*) rm -rf "$H";; esac
    exit $rc
fi
exec /opt/venv/bin/python -W ignore lib/runner.py "$@"
