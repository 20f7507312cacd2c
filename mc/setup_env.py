"""Puts the stand-ins for the packages that are not installed here (ngmix,
sxdes, meds, lsst.*) and /repo on sys.path; import this first."""
import logging
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in ('/repo', os.path.join(VERIF, 'env'), VERIF):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
# never let a stale partially initialised package shadow the real one
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('NUMBA_NUM_THREADS', '1')
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402
np.seterr(all='ignore')
