#!/bin/bash
# nothing to build: checks that the tools are there
set -e
cd "$(dirname "$0")/.."
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import sys; print("python", sys.version.split()[0])'
