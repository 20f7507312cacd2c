"""C20: content of the catalogue rows of a complete run."""
import itertools
import numpy as np
import ngmix
from ngmix import env
from mc.core import Space, Out
from mc import mdmodel as mm
from metadetect.metadetect import do_metadetect

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('every combination of the listed settings (fitters, weights, mask windows, apertures, '
        'steps, types), shear and detection band choices, band states and detections; every '
        'column of every row is compared with an independent model of the run; non-trivial: at '
        'least one detection')
ASSUMPTIONS = ['stamp measurements, masked fractions of a position and unsheared positions are '
               'taken from the functions decided by C09, C12, C13-C16',
               'metacalibration and detection are stand-ins', 'one epoch per band']
DIMS = (18, 16)
OK = dict(state='ok', mf='some', nodet='none')
HOLES = dict(state='holes', mf='some', nodet='some')
NOMF = dict(state='ok', mf='none', nodet='some')
SMF = dict(state='ok', mf='small', nodet='none')
ZMF = dict(state='ok', mf='zero', nodet='none')

FITS = {
    'wmom': {'model': 'wmom', 'weight': {'fwhm': 1.2}},
    'wmom-nosym': {'model': 'wmom', 'weight': {'fwhm': 1.4}, 'symmetrize': False},
    'default': {'weight': {'fwhm': 1.2}},
    'pgauss-reg': {'model': 'pgauss', 'weight': {'fwhm': 2.0, 'fwhm_reg': 0.8}},
    'ksigma': {'model': 'ksigma', 'weight': {'fwhm': 1.5, 'fwhm_smooth': 0.5}},
    'am': {'model': 'am'},
    'two': {'fitters': [{'model': 'wmom', 'weight': {'fwhm': 1.2}},
                        {'model': 'pgauss', 'weight': {'fwhm': 2.0}, 'symmetrize': False}]},
    'three': {'fitters': [{'model': 'am', 'symmetrize': False}, {'model': 'ksigma',
                          'weight': {'fwhm': 1.5, 'fwhm_reg': 0.7}},
                          {'model': 'gauss', 'coadd': True}]},
}


def run(case):
    cfg = mm.deep(FITS[case['fit']])
    cfg['meds'] = dict(mm.MEDS)
    cfg['metacal'] = {'psf': 'gauss'}
    if case.get('uber'):
        cfg['meds']['weight_type'] = 'uberseg'
    if case.get('step'):
        cfg['metacal']['step'] = case['step']
    if case.get('types'):
        cfg['metacal']['types'] = list(case['types'])
    for k in ('mask_region', 'ormask_region', 'mfrac_fwhm', 'bmask_flags', 'nodet_flags'):
        if case.get(k) is not None:
            cfg[k] = case[k]
    cfg0 = mm.deep(cfg)
    mb = mm.make_mbobs(DIMS, case['bands'], flip=case.get('flip', False))
    before = mm.snap(mb)
    nb = len(case['bands'])
    shear, det = case['shear'], case['det']
    sc = [list(range(nb))] if shear is None else shear
    if det is None:
        dc = [list(range(nb))]*len(sc)
    elif det == 'shear_bands':
        dc = sc
    else:
        dc = det
    combos = list(zip(sc, dc))
    rows = case['rows']

    def plan(t, d):
        # different numbers of detections per sheared image and detection bands
        k = ['noshear', '1p', '1m', '2p', '2m', '1p_psf', '1m_psf', '2p_psf', '2m_psf'].index(t)
        n = (k + len(d) + min(d)) % (len(rows) + 1) if case.get('vary') else len(rows)
        return rows[:n]
    e = mm.Env(mb, cfg, plan)
    e.expect_dets(dc)
    kw = {}
    if shear is not None:
        kw['shear_band_combs'] = mm.deep(shear)
    if det is not None:
        kw['det_band_combs'] = mm.deep(det)
    kw0 = mm.deep(kw)
    out = Out(trivial=not rows, steps=len(combos)*5)
    with env.use(e):
        got = do_metadetect(cfg, mb, np.random.RandomState(3), **kw)
    with env.use(None):
        exp = mm.expected(mb, cfg, combos, e)
    mm.compare(out, got, exp, case.get('types') or mm.MINIMAL)
    out.expect(e.unknown == 0, 'detection-input', 'detection ran on an unexpected image')
    # the caller's configuration and data are left alone
    out.expect(cfg == cfg0, 'config-modified', 'config became %s' % cfg)
    out.expect(kw == kw0, 'bands-modified', 'band lists modified')
    out.expect(mm.same_snap(before, mm.snap(mb)), 'input-modified', 'observations modified')
    out.outcome = None if got is None else str(sorted(
        (t, None if got[t] is None else (len(got[t]), str(got[t]['shear_bands'])))
        for t in got))
    return out


def spaces(tier):
    th = tier == 'thorough'
    base = dict(fit='wmom', bands=[OK, HOLES], shear=None, det=None, rows=[0, 1, 2])
    fits = []
    bsets = [[OK], [OK, HOLES], [ZMF, ZMF], [NOMF, OK, HOLES], [SMF, NOMF]]
    for f in FITS:
        for bs in bsets:
            for ub in (0, 1):
                for sh in (None, [[0]]):
                    fits.append(dict(base, fit=f, bands=bs, uber=ub, shear=sh,
                                     rows=[0, 4, 1, 2] if ub else [0, 1, 2]))
    regs = []
    for mr, orr, mf in itertools.product((None, 1, 2, 4, 30), (None, 0, 1, 3, 30),
                                         (None, 0.5, 2.0)):
        for bs in ([OK], [NOMF, HOLES]):
            regs.append(dict(base, bands=bs, mask_region=mr, ormask_region=orr, mfrac_fwhm=mf,
                             rows=[2, 1, 3]))
    pos = []
    for st in (None, 0.02, 0.1):
        for ty in (None, ['noshear', '1m'], ['2p', 'noshear', '1p_psf', '2m_psf']):
            for fl in (False, True):
                for fg in (None, 1, 6, 2**30):
                    for vr in (0, 1):
                        pos.append(dict(base, step=st, types=ty, flip=fl, bmask_flags=fg,
                                        rows=[0, 1, 2, 3], vary=vr))
    # choices of bands
    bands = []
    B3 = [NOMF, OK, HOLES]
    sets = [list(p) for k in (1, 2, 3) for p in itertools.permutations(range(3), k)]
    lists = [None] + [[s] for s in sets] + [[a, b] for a in sets for b in sets]
    for i, sh in enumerate(lists):
        n = 1 if sh is None else len(sh)
        dets = [None, 'shear_bands']
        if n == 1:
            dets += [[d] for d in sets]
        else:
            dets += [[[0], [2, 1]], [[1], [1]]]
        if n == 2 and not th:
            if len(sh[0]) + len(sh[1]) > 4:
                continue
            dets = dets[:3] if i % 2 else dets[:2]
        for d in dets:
            bands.append(dict(base, bands=B3, shear=sh, det=d, rows=[0, 1], vary=1,
                              types=['noshear', '1p']))
    for nb in (4, 5, 6):
        Bn = [B3[(i + 1) % 3] for i in range(nb)]
        for sh in (None, [[nb-1]], [list(range(nb))[::-1]], [[3, 0], [nb-1, 1, 2]],
                   [[k] for k in range(nb)]):
            for d in (None, 'shear_bands') + (([[nb-1, 1]],) if sh and len(sh) == 1 else ()):
                bands.append(dict(base, bands=Bn, shear=sh, det=d, rows=[0, 1], vary=1,
                                  types=['noshear', '1p']))
    multi = [dict(base, rows=list(r), uber=u) for k in range(0, 5) for r in
             itertools.permutations(range(5), k) for u in ((0, 1) if th or k < 3 else (0,))]
    for n in (12, 35):
        for u in (0, 1):
            multi.append(dict(base, rows=[(k + k//5) % 5 for k in range(n)], uber=u))
    return [Space('fitters', fits, run), Space('mask-windows', regs, run),
            Space('positions', pos, run), Space('bands', bands, run),
            Space('detections', multi, run)]
