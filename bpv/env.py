"""Locates the code under test and the (offline) tool libraries.

The code under test is imported from BPV_REPO (default /repo): bloscpack is a
pure Python package, so importing the working tree *is* rebuilding it.
"""
import os
import sys
import warnings

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BPV_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
# at the END of the path: numpy and blosc have to come from the venv of the
# code under test, only hypothesis (and atheris) come from the tools
if TOOLS not in sys.path:
    sys.path.append(TOOLS)

warnings.simplefilter('ignore')

import bloscpack  # noqa: E402

SUT_DIR = os.path.dirname(os.path.abspath(bloscpack.__file__))
if os.path.realpath(SUT_DIR) != os.path.realpath(os.path.join(REPO, 'bloscpack')):
    raise RuntimeError('bloscpack was imported from %r, not from %r' % (SUT_DIR, REPO))

import blosc  # noqa: E402
blosc.set_nthreads(1)
