#!/bin/bash
# nothing to build: pure Python; just make sure the interpreter and package load
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD"
mkdir -p evidence
/opt/venv/bin/python -c "import mc.lib; print('ok')"
