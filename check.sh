#!/usr/bin/env bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH PKM_HOME
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1 LANG=C.UTF-8 LC_ALL=C.UTF-8
exec /opt/venv/bin/python -B -m vmon.runner "$1" "${2:-${VERIF_TIER:-quick}}"
