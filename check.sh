#!/bin/bash
# ./check.sh <property> [quick|thorough]   or   ./check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m harness.run "$@"
