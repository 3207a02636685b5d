#!/bin/bash
# Nothing to compile: verify that the interpreter and its libraries are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c 'import numpy, h5py; print("ok", numpy.__version__)'
