#!/bin/bash
# check.sh <property id> [--tier quick|thorough] | --replay FILE | --selftest
# Runs one check against /repo's working tree. No build output is kept anywhere.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONOPTIMIZE PYTHONSTARTUP
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export PYTHONPYCACHEPREFIX="$tmp/pycache"   # never read a stale __pycache__
export VERIF_SCRATCH="$tmp"
cd "$here" || exit 2
"$py" -m mc.main "$@"
exit $?
