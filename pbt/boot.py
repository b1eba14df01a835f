"""Import the code under test from /repo's working tree, offline and without
leaving anything behind (no bytecode), together with Hypothesis and mpmath from
the pre-installed tool environment."""
import os
import sys

sys.dont_write_bytecode = True
# Stale bytecode is matched by size and whole-second mtime only: never read any.
sys.pycache_prefix = '/nonexistent-pycache-prefix'
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')

# Only for trying the checks on a scratch copy; registered commands use /repo.
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)      # appended: the repository's own NumPy wins

import warnings
warnings.simplefilter('ignore')

import numpy
import traceback
IMPORT_ERROR = None     # the library itself cannot be imported
try:
    import uncertainties
    from uncertainties import umath, unumpy
    from uncertainties.unumpy import ulinalg
except Exception:
    IMPORT_ERROR = traceback.format_exc()
else:
    assert os.path.realpath(uncertainties.__file__).startswith(
        os.path.realpath(REPO) + os.sep), uncertainties.__file__
import hypothesis
import hypothesis.internal.conjecture.engine as _engine
# Shrinking is bounded in time; this has no effect on the verdict.
_engine.MAX_SHRINKING_SECONDS = 40
