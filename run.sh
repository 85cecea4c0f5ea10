#!/bin/bash
# run.sh ID [quick|thorough] | run.sh ID --replay FILE
cd "$(dirname "$0")" || exit 2
exec /opt/vp/venv/bin/python lib/harness.py "$@"
