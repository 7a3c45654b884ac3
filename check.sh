#!/bin/bash
# check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3 run_check.py "$1" "${2:-${VERIF_TIER:-quick}}"
