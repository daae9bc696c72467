#!/bin/bash
# Nothing to build: the checks are Python and import the code under test from /repo. Verify that they can run.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
exec /opt/venv/bin/python -W ignore -c "
import numpy, scipy, h5py, pandas, matplotlib, sympy, ruamel.yaml
import mc.core, mc.main, mc.sddsref
print('model checking framework ready')"
