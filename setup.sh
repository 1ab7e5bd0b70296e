#!/bin/bash
# Builds what the checks need besides Python: the system-call interposer of the crash checks.
set -e
cd "$(dirname "$0")"
if [ -f native/faultfs.c ]; then
  mkdir -p build
  gcc -O2 -shared -fPIC -o build/faultfs.so native/faultfs.c -ldl
fi
/opt/venv/bin/python -c "import numpy, scipy, torch, zuko, dill"
echo setup ok
