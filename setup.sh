#!/bin/bash
# Nothing is compiled: the specifications are interpreted by the installed TLC and
# the harness imports /repo directly. Checks that both can start.
here="$(cd "$(dirname "$0")" && pwd)"
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "no TLC"; exit 1; }
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c "import torch, numpy, sys; sys.path.insert(0, '$here/harness'); import vp" || exit 1
mkdir -p "$here/evidence" "$here/out"
echo ok
