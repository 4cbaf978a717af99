#!/bin/bash
# ./check.sh C01 quick|thorough      run the check of a property
# ./check.sh --replay FILE           run a reported failing input on the real code
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
if [ "$1" = "--replay" ]; then
  exec /opt/veriftools/pyvenv/bin/python -m engine.check --replay "$2"
fi
exec /opt/veriftools/pyvenv/bin/python -m engine.check --prop "$1" --tier "${2:-quick}" "${@:3}"
