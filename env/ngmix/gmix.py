import numpy as np
from .gexceptions import GMixFatalError, GMixRangeError


class GMix(object):
    pass


class GMixModel(GMix):
    """only round/elliptical gaussians: pars [row, col, g1, g2, T, flux]"""
    def __init__(self, pars, model):
        if model != 'gauss':
            raise ValueError('only gauss')
        self.pars = np.array(pars, dtype='f8')
        g1, g2, T = self.pars[2:5]
        g = np.sqrt(g1**2 + g2**2)
        if g >= 1:
            raise GMixRangeError('g out of bounds: %s' % g)
        e = np.tanh(2*np.arctanh(g))
        e1, e2 = (0.0, 0.0) if g == 0 else (e*g1/g, e*g2/g)
        self._irr, self._irc, self._icc = 0.5*T*(1 - e1), 0.5*T*e2, 0.5*T*(1 + e1)
        self._det = self._irr*self._icc - self._irc**2
        if self._det <= 0:
            raise GMixRangeError('det too low: %s' % self._det)

    def copy(self):
        return GMixModel(self.pars, 'gauss')

    def get_weighted_sums(self, obs, maxrad, res=None):
        """gaussian weighted sums over the pixels within maxrad (sky units)"""
        v0, u0, g1, g2, T, flux = self.pars
        rows, cols = np.mgrid[:obs.image.shape[0], :obs.image.shape[1]]
        v, u = obs.jacobian.get_vu(rows, cols)
        v = v - v0
        u = u - u0
        r2 = u**2 + v**2
        wt = obs.weight
        use = r2 < maxrad**2
        if obs.ignore_zero_weight:
            use &= wt > 0
        if not np.any(obs.weight > 0):
            raise GMixFatalError('no weights > 0')
        norm = flux/(2*np.pi*np.sqrt(self._det))*obs.jacobian.area
        chi2 = (self._icc*v**2 + self._irr*u**2 - 2*self._irc*u*v)/self._det
        g = norm*np.exp(-0.5*chi2)
        sums = np.zeros(6)
        cov = np.zeros((6, 6))
        d = obs.image[use]
        w = g[use]
        F = np.stack([v[use], u[use], (u**2 - v**2)[use], (2*u*v)[use],
                      r2[use], np.ones(w.size)])
        sums[:] = (F*(w*d)).sum(axis=1)
        with np.errstate(all='ignore'):
            var = 1.0/wt[use]
        for i in range(6):
            for j in range(6):
                cov[i, j] = (w**2*var*F[i]*F[j]).sum()
        return {'sums': sums, 'sums_cov': cov, 'wsum': w.sum(),
                'npix': int(use.sum()), 'maxrad': maxrad, 'pars': sums[:6],
                'flags': 0}
