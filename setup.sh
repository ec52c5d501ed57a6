#!/bin/bash
# Nothing is compiled: the checks interpret /verif/spec with TLC and import skada
# from /repo's working tree.  This only makes sure the toolchain answers.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "no TLC"; exit 1; }
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c "import skada, torch, skorch" || exit 1
echo setup ok
