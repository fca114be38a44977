#!/bin/bash
# Nothing to compile: the checks import the Python sources of /repo directly.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
chmod +x "$here/run.sh"
mkdir -p "$here/evidence/replay"
. /opt/vp/env.sh
export PYTHONPATH="$here:$PYTHONPATH"
/opt/venv/bin/python -c "import reagent_compat, torch, mc.core; print('ok')"
