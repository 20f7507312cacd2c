import numpy as np
from . import env as _env
from .gaussmom import _WeightedMom
from .gexceptions import GMixFatalError
from .moments import make_mom_result


class AdmomFitter(object):
    kind = "am"

    def __init__(self, maxiter=200, shiftmax=5.0, etol=1.0e-5, Ttol=1.0e-3,
                 cenonly=False, rng=None):
        self.rng = rng

    def go(self, obs, guess):
        if guess is None:
            raise ValueError('send a guess')
        if not np.any(obs.weight > 0):
            raise GMixFatalError('no weights > 0')
        ans = _env.ask('admom', fitter=self, obs=obs)
        if ans is not None:
            if isinstance(ans, BaseException):
                raise ans
            return ans
        s, c, norm = _WeightedMom(1.2)._moms(obs)
        res = make_mom_result(s, c, sums_norm=norm)
        if 'value' in guess:
            # the answer depends slightly on where the fit starts
            res['T'] *= 1 + 1.0e-7*guess['value']
        return res
