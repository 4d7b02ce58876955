#!/bin/bash
# run.sh PROPERTY [quick|thorough] [options]: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/veriftools/pyvenv/bin/python -B -m vp.check "$@"
