#!/bin/sh
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && VERIF_TIER="$2" && export VERIF_TIER
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec python3 -B -c 'import sys; from mc.engine import main; sys.exit(main(sys.argv[1]))' "$1"
