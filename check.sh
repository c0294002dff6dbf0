#!/bin/bash
# ./check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt engine/main.py "$@"
