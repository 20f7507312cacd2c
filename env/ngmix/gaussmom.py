from . import env as _env
from .gmix import GMixModel
from .moments import fwhm_to_T, make_mom_result
from .gexceptions import GMixFatalError
import numpy as np


class _WeightedMom(object):
    kind = None

    def __init__(self, fwhm, **kw):
        self.fwhm = fwhm
        self.kw = kw

    def _moms(self, obs):
        gm = GMixModel([0, 0, 0, 0, fwhm_to_T(self.fwhm), 1.0], 'gauss')
        res = gm.get_weighted_sums(obs, 1.0e9)
        pk = np.pi*fwhm_to_T(self.fwhm)/obs.jacobian.area  # weight peaks at 1
        return res['sums']*pk, res['sums_cov']*pk**2, res['wsum']*pk

    def go(self, obs, **kw):
        ans = _env.ask('mom', fitter=self, obs=obs, kw=kw)
        if ans is not None:
            if isinstance(ans, BaseException):
                raise ans
            return ans
        s, c, norm = self._moms(obs)
        return make_mom_result(s, c, sums_norm=norm)


class GaussMom(_WeightedMom):
    def __init__(self, fwhm, with_higher_order=False):
        super().__init__(fwhm)
        self.kind = "wmom"
