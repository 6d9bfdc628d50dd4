#!/bin/bash
# usage: check.sh ID [--tier quick|thorough] ...   (run from anywhere)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -B vt/run.py "$@"
