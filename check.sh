#!/bin/sh
# usage: check.sh PROPERTY quick|thorough
exec /opt/venv/bin/python -s "$(dirname "$0")/symx/run.py" "$@"
