#!/bin/bash
# Nothing to build: the specifications are read by TLC, the harness is Python. Fails early if a tool is missing.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
test -f /opt/veriftools/tla/tla2tools.jar && java -version >/dev/null 2>&1 && /opt/venv/bin/python -c "import numpy, pandas"
