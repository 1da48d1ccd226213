#!/bin/sh
# Nothing to build: the checks import /repo's working tree directly.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence/replay
/opt/venv/bin/python -c "import numpy, h5py, soundfile, pandas"
