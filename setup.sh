#!/bin/bash
# Nothing has to be built ahead: every check rebuilds what it needs from the
# working tree of the repository.  This only makes sure the interpreters work.
set -e
cd "$(dirname "$0")"
python3 -c 'import sim.profile, sim.shrink'
mkdir -p evidence replays build
"${VERIF_PYTHON:-/opt/venv/bin/python}" -c 'import numpy, h5py'
