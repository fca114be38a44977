#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--only GROUP] [--case KEY] [--list]
# Runs the check of one property against /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
# development only: the same checks against a scratch copy
[ -n "${VERIF_REPO:-}" ] && export PYTHONPATH="$VERIF_REPO:/opt/vp/compat"
export PYTHONPATH="$here:$PYTHONPATH" VERIF_HOME="$here"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export TQDM_DISABLE=1 TOKENIZERS_PARALLELISM=false PYTHONWARNINGS=ignore
cd "$here"
exec /opt/venv/bin/python -m mc.main "$@"
