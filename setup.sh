#!/bin/sh
# Nothing has to be built ahead of the checks: every check generates and compiles what it needs from /repo.
cd "$(dirname "$0")" || exit 1
for t in python3 gcc-13 g++-13 go rustc node; do command -v $t >/dev/null || { echo "missing tool: $t" >&2; exit 1; }; done
PYTHONDONTWRITEBYTECODE=1 python3 -B -c 'import mc.engine, mc.plans, mc.universe, mc.model'
mkdir -p evidence/replay
