#!/bin/sh
# Builds nothing ahead of time (each check compiles the gateware from /repo's current tree); only
# verifies that the toolchain works and that compiled gateware agrees with Migen's own simulator.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
mkdir -p build evidence replays
PYTHONPATH="/repo:$here" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -m sim.selftest_fhdl 0 24
