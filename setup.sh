#!/bin/bash
# Nothing to compile: the checks are Python and import titus from /repo. Verify the interpreter and the import work.
cd "$(dirname "$0")" || exit 1
H=$(mktemp -d); mkdir "$H/.pfa"
HOME="$H" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c 'import sys; sys.path.insert(0, "lib"); import pbt, avt, titus.genpy' </dev/null
rc=$?
case "$H" in /tmp/*) rm -rf "$H";; esac
exit $rc
