#!/bin/bash
# bash check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-quick}"
exec python3-vt mirvc/run.py "$1" "$VERIF_TIER"
