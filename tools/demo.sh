#!/bin/bash
# exit 0 when the property holds; run with the current directory at the repository
PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
