#!/bin/bash
# nothing is built: the checks encode /repo's sources when they run.  Check that the tools are there.
cd "$(dirname "$0")" && [ -f /opt/torchrir/env.sh ] && . /opt/torchrir/env.sh
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c "from engine import z3shim, terms, solver, symt, explore"
