"""Bundles whose fits answer as the case says, and an independent model of the
weighted average over bands."""
import numpy as np
import ngmix
from ngmix import env
from ngmix.moments import make_mom_result, fwhm_to_T

EDGE_BIT = 2**21     # a bit the caller rejects
OTHER_BIT = 2**7     # a bit the caller does not reject


def sums_for(kind, band, psf):
    """moments [v, u, M1, M2, MT, MF] of one band"""
    k = 1.0 + 0.5*band + (0.25 if psf else 0)
    s = np.array([0.1*k, -0.2, 0.3*k, -0.2 + 0.05*band, 2.0*k, 5.0*k + band])
    c = np.diag([0.2, 0.3, 0.11*k, 0.13, 0.4, 0.5])
    c[4, 5] = c[5, 4] = 0.05
    c[2, 3] = c[3, 2] = 0.01
    c[2, 5] = c[5, 2] = 0.02
    norm = 1.5 + band + (0.125 if psf else 0)
    if kind == 'negflux':
        s[5] = -s[5]
    elif kind == 'zeroflux':
        s[5] = 0
    elif kind == 'negT':
        s[4] = -s[4]
    elif kind == 'novar':
        c[:] = 0
    elif kind == 'nonorm':
        norm = np.nan
    elif kind == 'zeronorm':
        norm = 0.0
    elif kind == 'bigneg':
        s[5] = -100.0
    elif kind == 'nancen':
        s[0] = s[1] = np.nan
    elif kind == 'nanv':
        s[1] = np.nan
    elif kind == 'noTvar':
        # without a variance of T; only the regularized size has one
        c[4, :] = c[:, 4] = 0
    elif kind == 'cancel':
        # the weighted average with a good band of index 0 and weight 2 is exactly zero
        s[5] = -10.0/(2.0 + 3*band)
    return s, c, norm


def answer(kind, band, psf):
    if kind == 'nomom':
        return {'flags': ngmix.flags.MAXITER, 'flagstr': 'maxiter', 'flux': 1.0,
                'flux_err': 1.0, 'flux_flags': 0}
    if kind == 'nocov':
        s, c, n = sums_for('good', band, psf)
        r = make_mom_result(s, c, sums_norm=n)
        del r['sums_cov']
        return r
    if kind == 'noflux':
        s, c, n = sums_for('good', band, psf)
        r = make_mom_result(s, c, sums_norm=n)
        del r['flux_err']
        return r
    if kind == 'nonormkey':
        s, c, n = sums_for('good', band, psf)
        r = make_mom_result(s, c)
        del r['sums_norm']
        return r
    s, c, n = sums_for(kind, band, psf)
    r = make_mom_result(s, c, sums_norm=n)
    if kind == 'badflux':
        r['flux_flags'] |= ngmix.flags.NONPOS_VAR
        r['flux'] = np.nan
    return r


def make_band(state, band, weight=None, dims=(5, 5)):
    """ObsList of one band: state is 'ok', 'missing', 'zero', 'edge', 'edgezero', 'other'"""
    ol = ngmix.ObsList()
    if state == 'missing':
        return ol
    w = np.full(dims, 2.0 + 3*band) if weight is None else np.array(weight, dtype='f8')
    if state in ('zero', 'edgezero'):
        w = np.zeros(dims)
    bm = np.zeros(dims, dtype='i4')
    bm[0, 0] = OTHER_BIT
    if state in ('edge', 'edgezero'):
        bm[4, 3] |= EDGE_BIT
    r, c = np.mgrid[:dims[0], :dims[1]]
    jac = ngmix.DiagonalJacobian(row=2, col=2, scale=0.2)
    pim = np.exp(-((r-2)**2 + (c-2)**2)/2.0)
    psf = ngmix.Observation(pim, jacobian=jac, meta={'band': band, 'psf': True})
    ob = ngmix.Observation(pim*(band+1), weight=w, bmask=bm, jacobian=jac, psf=psf,
                           meta={'band': band, 'psf': False},
                           ignore_zero_weight=bool(np.any(w > 0)))
    ol.append(ob)
    return ol


def make_fitter(kind):
    if kind == 'wmom':
        return ngmix.gaussmom.GaussMom(fwhm=1.2)
    if kind == 'ksigma':
        return ngmix.prepsfmom.KSigmaMom(fwhm=2.0)
    return ngmix.prepsfmom.PGaussMom(fwhm=2.0)


class WavgModel(object):
    """bands: list of dict(state, wgt, obj, psf)"""
    def __init__(self, bands, shear, reg):
        self.bands = bands
        self.shear = shear
        self.reg = reg

    def measure(self):
        """combined object and psf moments of the shear bands (all present)"""
        wsum = sum(b['wgt'] for i, b in enumerate(self.bands) if i in self.shear)
        res = {}
        for which in ('obj', 'psf'):
            M = np.zeros(6)
            C = np.zeros((6, 6))
            F = V = 0.0
            for i in self.shear:
                b = self.bands[i]
                s, c, n = b[which + '_sums']
                n1 = n if np.isfinite(n) else 1.0
                ratio = 1.0
                if which == 'psf':
                    so, _, no = b['obj_sums']
                    if np.isfinite(n) and np.isfinite(no):
                        ratio = (so[5]/no)/(s[5]/n)
                    else:
                        ratio = so[5]/s[5]
                f = b['wgt']/wsum
                M += f*ratio*s/n1
                C += (f*ratio/n1)**2*c
                F += f*s[5]
                V += f**2*c[5, 5]
            res[which] = (M, C, F, V)
        return res

    @staticmethod
    def shape(M, C, F, V, reg):
        r = make_mom_result(M, C)
        flags = r['flags']
        e, e_cov = r['e'], r['e_cov']
        if reg > 0:
            T = fwhm_to_T(reg)
            A = np.eye(6)
            A[4, 5] = T
            M2 = M.copy()
            M2[4] = M[4] + T*M[5]
            r2 = make_mom_result(M2, A @ C @ A.T)
            flags |= r2['flags']
            e, e_cov = r2['e'], r2['e_cov']
        if F <= 0:
            flags |= ngmix.flags.NONPOS_FLUX
        if not V > 0:
            flags |= ngmix.flags.NONPOS_VAR
        return dict(e=e, e_cov=e_cov, T=r['T'], T_err=r['T_err'], T_flags=r['T_flags'],
                    flags=flags, s2n=F/np.sqrt(V) if V > 0 else np.nan)
