import numpy as np
from . import env as _env
from .gaussmom import _WeightedMom
from .moments import make_mom_result
from .shape import e1e2_to_g1g2
from .observation import Observation, MultiBandObsList


class Fitter(object):
    kind = 'gauss'

    def __init__(self, model, prior=None, fit_pars=None):
        self.model = model
        self.prior = prior
        self.fit_pars = fit_pars

    def _check_prior(self, obs):
        # the real one indexes parameters that do not exist
        if self.prior is None:
            return
        n = len(obs) if isinstance(obs, MultiBandObsList) else 1
        if self.prior.nband != n:
            raise IndexError('prior for %d fluxes, %d bands' % (self.prior.nband, n))

    def go(self, obs, guess):
        self._check_prior(obs)
        ans = _env.ask('fitter', fitter=self, obs=obs)
        if ans is not None:
            if isinstance(ans, BaseException):
                raise ans
            return ans
        mom = _WeightedMom(1.2)
        if isinstance(obs, Observation):
            lst = [obs]
        elif isinstance(obs, MultiBandObsList):
            lst = [o for ol in obs for o in ol]
        else:
            lst = list(obs)
        ms = [mom._moms(o) for o in lst]
        s = sum(m[0] for m in ms)/len(ms)
        c = sum(m[1] for m in ms)/len(ms)**2
        r = make_mom_result(s, c)
        flags = r['flags'] | r['T_flags']
        res = {'flags': flags, 'model': self.model}
        if flags == 0:
            g1, g2 = e1e2_to_g1g2(*r['e'])
            flux = np.array([m[0][5] for m in ms])
            ferr = np.array([np.sqrt(m[1][5, 5]) for m in ms])
            res.update(s2n=r['s2n'], g=np.array([g1, g2]), g_cov=r['e_cov'],
                       T=r['T'], T_err=r['T_err'], T_flags=0,
                       flux=flux if flux.size > 1 else flux[0],
                       flux_err=ferr if ferr.size > 1 else ferr[0])
        if flags == 0 and 'value' in guess:
            res['T'] *= 1 + 1.0e-7*guess['value']
        return res


CoellipFitter = Fitter
