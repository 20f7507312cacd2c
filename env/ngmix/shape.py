import numpy as np
from .gexceptions import GMixRangeError


def e1e2_to_g1g2(e1, e2):
    """distortion to reduced shear"""
    e = np.sqrt(e1*e1 + e2*e2)
    if np.isscalar(e) or np.ndim(e) == 0:
        if not e < 1.0:
            raise GMixRangeError("e >= 1: %s" % e)
        if e == 0.0:
            return 0.0*e1, 0.0*e2
        g = np.tanh(0.5*np.arctanh(e))
        fac = g/e
        return fac*e1, fac*e2
    if np.any(~(e < 1.0)):
        raise GMixRangeError("some e >= 1")
    fac = np.ones_like(e)*0.5
    w = e > 0
    fac[w] = np.tanh(0.5*np.arctanh(e[w]))/e[w]
    return fac*e1, fac*e2


class Shape(object):
    def __init__(self, g1, g2):
        self.g1 = g1
        self.g2 = g2
        if not g1**2 + g2**2 < 1:
            raise GMixRangeError("g >= 1")
