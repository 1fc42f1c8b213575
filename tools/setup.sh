#!/bin/sh
# Builds the fault-injection shim; everything else runs from source.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -B -c 'import networkx, sys; print(sys.version)'
if [ -f shim/faultfs.c ]; then
  mkdir -p build
  gcc -O1 -shared -fPIC -o build/faultfs.so.tmp shim/faultfs.c -ldl -pthread
  mv build/faultfs.so.tmp build/faultfs.so
fi
