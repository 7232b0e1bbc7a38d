#!/bin/bash
# exit 0: the property holds; anything else: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
