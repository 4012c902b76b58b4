#!/bin/sh
# Nothing has to be compiled: bloscpack is pure Python and is imported from the
# working tree of /repo by every check.  This only makes sure that everything
# the checks need is there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -B -c '
import sys
sys.path.insert(0, ".")
from bpv import env, api, gen, ndgen, ref, core
import hypothesis, glob, os
for p in sorted(glob.glob("bpv/props/c*.py")):
    core.load(os.path.basename(p)[:-3].upper())
print("bloscpack", env.SUT_DIR, "blosc", api.blosc.__version__, "numpy", ndgen.np.__version__,
      "hypothesis", hypothesis.__version__)
'
