"""metacal entry point: every type gets its own, distinguishable images"""
import numpy as np
from .. import env as _env
from ..observation import Observation, ObsList, MultiBandObsList, get_mb_obs

DEFAULT_STEP = 0.01
METACAL_TYPES = ['noshear', '1p', '1m', '2p', '2m',
                 '1p_psf', '1m_psf', '2p_psf', '2m_psf']
METACAL_MINIMAL_TYPES = ['noshear', '1p', '1m', '2p', '2m']


def get_all_metacal(obs, psf='gauss', step=DEFAULT_STEP, fixnoise=True,
                    types=None, rng=None, use_noise_image=False, **kw):
    for k in kw:
        if k not in ('nband', 'whiten', 'target_noise', 'shear_pixelize'):
            raise TypeError('unexpected keyword %s' % k)
    ans = _env.ask('metacal', obs=obs, step=step, types=types, rng=rng)
    if isinstance(ans, BaseException):
        raise ans
    if types is None:
        types = METACAL_MINIMAL_TYPES
    for t in types:
        if t not in METACAL_TYPES:
            raise ValueError('bad metacal type: %s' % t)
    odict = {}
    for t in types:
        mb = get_mb_obs(obs)
        new = MultiBandObsList(meta=mb.meta)
        for ol in mb:
            nol = ObsList(meta=ol.meta)
            for o in ol:
                nol.append(_make(o, t, step))
            new.append(nol)
        odict[t] = new
    if callable(ans):
        odict = ans(odict)
    return odict


def _make(o, t, step):
    tag = METACAL_TYPES.index(t)
    n = o.copy()
    n.meta['mcal_type'] = t
    # a small, type dependent, brightness factor so that using the wrong
    # type's image shows in the measurements
    n.set_image(o.image*(1.0 + 0.001*tag*(step/0.01)))
    return n


def _get_gauss_target_psf(psf_image, *a, **kw):
    ans = _env.ask('gauss_target_psf', psf=psf_image)
    if ans is not None:
        if isinstance(ans, BaseException):
            raise ans
        return ans
    import galsim
    return galsim.Gaussian(fwhm=0.9, flux=kw.get('flux', 1.0))


def _get_ellip_dilation(e1, e2, T):
    """factor by which a round gaussian must be dilated to cover an elliptical one"""
    import numpy as _np
    irr = 0.5*T*(1-e1)
    irc = 0.5*T*e2
    icc = 0.5*T*(1+e1)
    mat = _np.array([[irr, irc], [irc, icc]])
    eigs = _np.linalg.eigvalsh(mat)
    return _np.sqrt(eigs.max()/(T/2.))
