#!/bin/bash
# Nothing to build: the checks are Python and compile /repo's sources afresh in every run.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "import sys; sys.dont_write_bytecode = True; import vp.boot, vp.engine, vp.asgi; print('ready:', sys.version.split()[0])"
