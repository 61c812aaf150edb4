#!/bin/sh
# nothing to build: checks that the tools are there
set -e
cd "$(dirname "$0")"
python3-vt -W ignore tools/list_contracts.py C01 >/dev/null
/opt/venv/bin/python -c 'import lgr'
mkdir -p evidence replay
