"""Runs with transformed data: a menu of complete runs, in another flux unit or band order."""
import contextlib
import io
import warnings
import galsim
import numpy as np
from mc import lsstmodel as lm
from mc import mdmodel as mm
from ngmix import env
import lsst.afw.image as afw_image
from metadetect.metadetect import do_metadetect
from metadetect.lsst.metadetect import run_metadetect
from metadetect.lsst.photometry import run_photometry
from checks import c21, c28

FITS = {
    'wmom': {'model': 'wmom', 'weight': {'fwhm': 1.2}},
    'reg': {'model': 'pgauss', 'weight': {'fwhm': 2.0, 'fwhm_reg': 0.8}},
    'ksigma': {'model': 'ksigma', 'weight': {'fwhm': 2.0}},
    'am': {'model': 'am'},
    'amcoadd': {'model': 'am', 'coadd': True, 'symmetrize': True},
    'gauss': {'model': 'gauss', 'coadd': False},
    'gausscoadd': {'model': 'gauss', 'coadd': True},
    'two': {'fitters': [{'model': 'wmom', 'weight': {'fwhm': 1.2}, 'symmetrize': True},
                        {'model': 'am'}]},
}
DIMS = (18, 16)
STATES = {
    'ok': dict(state='ok', mf='some', nodet='none'),
    'holes': dict(state='holes', mf='some', nodet='some'),
    'nomf': dict(state='ok', mf='none', nodet='some'),
    'flagged': dict(state='ok', mf='some', nodet='allbut1'),
}


def scaled(mb, k):
    """the same observations in another flux unit"""
    for ol in mb:
        for o in ol:
            with o.writeable():
                o.image *= k
                o.noise *= k
                o.weight /= k*k
    return mb


def core(case, k=1.0, perm=None):
    nb = len(case['bands'])
    perm = list(range(nb)) if perm is None else perm
    inv = [perm.index(b) for b in range(nb)]
    cfg = {'meds': dict(mm.MEDS), 'bmask_flags': case.get('bmask_flags', 0),
           'metacal': {'psf': 'gauss', 'types': ['noshear', '1p', '2m']}}
    cfg.update(mm.deep(FITS[case['fit']]))
    if case.get('uber'):
        cfg['meds']['weight_type'] = 'uberseg'
        cfg.update(nodet_flags=512, mask_region=2, ormask_region=3, mfrac_fwhm=0.7)
    mb = mm.make_mbobs(DIMS, [STATES[s] for s in case['bands']])
    if case.get('uber'):
        # regions not used for detection which cover a different object in each band
        for b, ol in enumerate(mb):
            for o in ol:
                with o.writeable():
                    col = (11, 2, 5)[b]
                    o.bmask[:, col:col+2] |= 512
    if k != 1.0:
        scaled(mb, k)
    import ngmix
    new = ngmix.MultiBandObsList()
    for p in perm:
        new.append(mb[p])

    def comb(cs):
        return None if cs is None else [[inv[b] for b in c] for c in cs]
    kw = {}
    if case.get('color'):
        dep = c21.dep_mbobs(new, 'copy')
        for ol in dep:
            for o in ol:
                o.set_image(o.image*1.25)
        kw = dict(color_dep_mbobs={'x': dep},
                  color_key_func=lambda f: 'x' if f[inv[0]] > case['color']*k else None)
    return do_metadetect(cfg, new, np.random.RandomState(2), shear_band_combs=comb(case['shear']),
                         det_band_combs=comb(case['det']), **kw)


def lsst_handler(fixed):
    def handler(kind, info):
        if kind == 'gauss_target_psf':
            sig = np.sqrt(-2*np.log(abs(info['psf'].kValue(1.0, 0))/info['psf'].flux))
            return galsim.Gaussian(sigma=1.3*sig, flux=info['psf'].flux)
        if kind == 'lsst.detect' and fixed:
            return c28.plan_answer(fixed)
        return None
    return handler


def lsst(case, k=1.0, perm=None):
    afw_image._reset_planes()
    c = dict(c28.BASE, **case)
    mb, nmb, mf, orm = c28.build(c)
    perm = list(range(c['nb'])) if perm is None else perm
    for m in (mb, nmb):
        for e in m.singles:
            e.image.array[:, :] *= k
            e.variance.array[:, :] *= k*k
    if mf is not None:
        mf = lm.mbexp_of([mf.singles[p] for p in perm])
    mb = lm.mbexp_of([mb.singles[p] for p in perm])
    nmb = lm.mbexp_of([nmb.singles[p] for p in perm])
    config = c28.make_config(c)
    rng = np.random.RandomState(4)
    if case['run'] == 'mdet':
        return run_metadetect(mb, nmb, rng, mf, orm, config)
    config.pop('metacal', None)
    return run_photometry(mb, rng, mf, orm, config)


def perform(case, k=1.0, perm=None):
    fn = lsst if 'run' in case else core
    h = lsst_handler(case.get('fixed')) if 'run' in case else None
    with env.use(h), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = fn(case, k, perm)
    return res if isinstance(res, dict) else {'all': res}


def is_flux(name):
    return name.endswith('flux') or name.endswith('flux_err')


def lsst_menu(th):
    """LSST runs"""
    res = []
    for run in ('mdet', 'phot'):
        for nb in (1, 2, 3):
            for shear in {1: [None], 2: [None, ['r']], 3: [None, ['i', 'g'], ['r']]}[nb]:
                for deb in ('sdss', 'scarlet'):
                    for sky in (0, 1):
                        for bv in (0, 1):
                            if (bv or sky) and not th and shear is not None:
                                continue
                            res.append(dict(run=run, nb=nb, shear=shear, deblender=deb, sky=sky,
                                            badvar=bv, types=['noshear', '2p'],
                                            thresh=4.0, stamp_size=11))
    for rec in ('gauss', 'fitgauss'):
        for nb in (1, 2):
            res.append(dict(run='mdet', nb=nb, reconv=rec, types=['1m', 'noshear', '1p'],
                            fwhm=1.4, mfrac='no'))
    return res
