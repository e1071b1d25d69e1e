#!/bin/bash
# bash check.sh C01 [--tier quick|thorough] : decide one property on /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/torchrir/env.sh ] && . /opt/torchrir/env.sh
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH="${VERIF_REPO:-/repo}/src:$here"
cd "$here" || exit 2
exec /opt/venv/bin/python "$here/engine/run.py" "$@"
