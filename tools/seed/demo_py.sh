#!/bin/bash
# Runs demo.py (beside this file) against the Python module built in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
MAIN=/opt/bezdeps/main
SP=lib/python3.12/site-packages/cmeel.prefix
export LD_LIBRARY_PATH="$PWD/_build:$MAIN/$SP/lib:/opt/bezdeps/hcd/$SP/lib"
export PYTHONPATH="$PWD/_build/python:$MAIN/lib/python3.12/site-packages:$MAIN/$SP/lib/python3.12/site-packages"
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 "$MAIN/bin/python3" -W ignore "$here/demo.py"
