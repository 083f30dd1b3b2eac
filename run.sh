#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--seed N] [--section S] [--replay FILE]
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python harness/vf.py "$@"
