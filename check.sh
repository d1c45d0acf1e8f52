#!/bin/bash
# check.sh <property> [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=/repo
cd "$here" && exec /opt/venv/bin/python -W ignore "$here/harness/run.py" "$@"
