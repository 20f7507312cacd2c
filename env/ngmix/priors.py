import numpy as np


class _P(object):
    def __init__(self, *a, **kw):
        self.a = a
        self.kw = kw


class GPriorBA(_P):
    def sample2d(self):
        """a shape well inside the allowed range (stand-in distribution)"""
        rng = self.kw.get('rng')
        r = min(0.5, abs(rng.normal(scale=0.1)))
        t = rng.uniform(0, 6.283185307179586)
        return r*np.cos(t), r*np.sin(t)


class CenPrior(_P):
    pass


class TwoSidedErf(_P):
    pass


class FlatPrior(_P):
    pass
