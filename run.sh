#!/bin/sh
# usage: run.sh check <property> | replay <file> | digest <property> [n]
# The code under test is imported from /repo's working tree (VERIF_REPO overrides it for
# experiments on scratch copies).
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
PYTHONPATH="${VERIF_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" \
    exec /opt/venv/bin/python -m sim.main "$@"
