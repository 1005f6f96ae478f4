#!/bin/bash
# Nothing to build: checks that the package under test and the harness import.
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 HOME="${HOME:-/root}"
cd "$here" && /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True
import props_chan, props_opt, props_codes, props_dev, vlib
assert len(vlib.SCENARIOS) == 29
print('ok')" 2>&1 | tail -3
exit ${PIPESTATUS[0]}
