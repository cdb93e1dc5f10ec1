#!/bin/bash
# bash check.sh C13 [quick|thorough] [more options of pbt/main.py]
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [quick|thorough]}; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VERIF_SEED=${VERIF_SEED:-1}
exec /opt/venv/bin/python -B "$here/pbt/main.py" "$id" --tier "$tier" "$@"
