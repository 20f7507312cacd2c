"""C41: catalogues have one form, and their rows do not contradict themselves."""
import contextlib
import io
import numpy as np
import ngmix
from ngmix.gexceptions import GMixFatalError, GMixRangeError
from ngmix.moments import make_mom_result
import lsst.afw.image as afw_image
from ngmix import env
from mc.core import Space, Out
from mc import fitmodel as fm
from mc import mdmodel as mm
from metadetect import procflags
from metadetect.metadetect import do_metadetect
from metadetect.lsst.metadetect import run_metadetect
from metadetect.lsst.photometry import run_photometry
from . import c16, c20, c21, c28

PROPERTY = 'C41'
LEVEL = 'fault_enumeration'
RULE = ('every run of the menu with each single fit, each group of repeated fits (thorough: also '
        'each pair of near fits), all fits of psfs, of objects, and all fits answering in each '
        'way of the menu, and with each state of each band and number of detections; each '
        'catalogue is compared with that of the undisturbed run, and all rows are looked at; '
        'non-trivial: a row differs from that of the undisturbed run')
ASSUMPTIONS = ['fits, metacalibration and detection are stand-ins',
               'the number of bands is part of the settings']
OK, HOLES, NOMF, ZMF = c20.OK, c20.HOLES, c20.NOMF, c20.ZMF

CORE = {
    'wmom1': dict(fit='wmom', bands=[OK]),
    'wmom': dict(fit='wmom', bands=[OK, HOLES], shear=[[0], [1, 0]]),
    'nosym': dict(fit='wmom-nosym', bands=[OK, HOLES, NOMF], shear=[[2, 0]]),
    'reg': dict(fit='pgauss-reg', bands=[HOLES, OK]),
    'ksigma': dict(fit='ksigma', bands=[ZMF, ZMF]),
    'am1': dict(fit='am', bands=[OK]),
    'am': dict(fit='am', bands=[OK, HOLES], shear=[[1]]),
    'two': dict(fit='two', bands=[OK, HOLES]),
    'three': dict(fit='three', bands=[NOMF, OK], shear=[[1], [0, 1]]),
    'gauss1': dict(fit={'model': 'gauss'}, bands=[OK]),
    'color': dict(fit='two', bands=[OK, HOLES], color=True),
    'gauss': dict(fit={'model': 'gauss', 'coadd': True}, bands=[OK, OK, OK], shear=[[0, 1]]),
}
MOM = ['nomom', 'nocov', 'noflux', 'negflux', 'negT', 'novar', 'nonorm', 'nonormkey', 'badflux',
       'zeroflux', 'nancen', 'noTvar', 'bigneg']
JOINT = ['fail', 'failnokeys', 'failshape', 'fatal', 'range']
EXC = {'fatal': GMixFatalError, 'range': GMixRangeError}


def is_psf(kind, info):
    obs = info['obs']
    while isinstance(obs, (list, ngmix.ObsList, ngmix.MultiBandObsList)):
        obs = obs[0]
    return not obs.has_psf()


class Fits(object):
    """answers of the fits: the n-th one of a kind or a whole class deviates"""
    def __init__(self, which, kind, rest):
        self.which, self.kind, self.rest = which, kind, rest
        self.n = self.hits = 0
        self.kinds = []

    def __call__(self, kind, info):
        if kind not in ('mom', 'admom', 'fitter'):
            return self.rest(kind, info)
        psf = is_psf(kind, info)
        n = self.n
        self.n += 1
        self.kinds.append(kind)
        w = self.which
        if not (w == 'all' or w == ('psf' if psf else 'obj') or w == n or
                isinstance(w, (list, tuple)) and n in w):
            return self.rest(kind, info)
        a = self.kind
        if kind == 'mom':
            if a in JOINT:
                return self.rest(kind, info)
            self.hits += 1
            return fm.answer(a, n % 3, psf)
        if a not in JOINT:
            return self.rest(kind, info)
        self.hits += 1
        if a in EXC:
            return EXC[a]('injected')
        if kind == 'admom':
            return c16.am_answer(a, 1)
        return c16.g_answer('fail', 1, 1)


def core_run(name, bands, which=None, kind=None, rows=None, psf_bad=()):
    t = CORE[name]
    fit = t['fit']
    cfg = mm.deep(c20.FITS[fit] if isinstance(fit, str) else fit)
    cfg['meds'] = dict(mm.MEDS)
    cfg['metacal'] = {'psf': 'gauss', 'types': ['noshear', '1p']}
    mb = mm.make_mbobs(c20.DIMS, bands)
    e = mm.Env(mb, cfg, lambda ty, d: rows if rows is not None else
               ([0, 2] if ty == 'noshear' else [3, 1]), psf_bad=psf_bad)
    combs = t.get('shear') or [list(range(len(bands)))]
    if e.odict is not None:
        e.expect_dets([list(range(len(bands)))]*len(combs))
    f = Fits(which, kind, e)
    kw = {}
    if t.get('color'):
        kw = dict(color_key_func=lambda fl: 'red' if np.atleast_1d(fl)[0] > 60 else None,
                  color_dep_mbobs={'red': c21.dep_mbobs(mb, 'red')})
    with env.use(f):
        res = do_metadetect(cfg, mb, np.random.RandomState(3), shear_band_combs=t.get('shear'),
                            **kw)
    return res, f, combs


LSST = {
    'mdet1': dict(fn='mdet', nb=1, plans=['two', 'blend'], types=['noshear', '2m']),
    'mdet': dict(fn='mdet', nb=2, plans=['blend'], types=['1p'], shear=['r'], mfrac='some',
                 ormasks=2, reconv='gauss'),
    'phot1': dict(fn='phot', nb=1, plans=['edges'], mfrac='no', ormasks=0),
    'phot': dict(fn='phot', nb=3, plans=['two'], deblender='scarlet', shear=['i', 'g']),
}


def lsst_run(name, which=None, kind=None, **kw):
    t = dict(c28.BASE, stamp_size=11)
    t.update(LSST[name])
    t.update(kw)
    afw_image._reset_planes()
    mb, nmb, mf, orm = c28.build(t)
    n = [0]

    def rest(k, info):
        if k == 'lsst.detect':
            n[0] += 1
            return c28.plan_answer(t['plans'][(n[0] - 1) % len(t['plans'])])
        if k == 'lsst.centroid':
            p = info['source'].getFootprint().getPeaks()[0]
            return (np.nan, np.nan) if t.get('nocen') else (p.getIx() + 0.2, p.getIy() - 0.1)
        return None
    f = Fits(which, kind, rest)
    cfg = c28.make_config(t)
    with env.use(f), contextlib.redirect_stdout(io.StringIO()):
        rng = np.random.RandomState(4)
        if t['fn'] == 'mdet':
            res = run_metadetect(mb, nmb, rng, mf, orm, cfg)
        else:
            cfg.pop('metacal', None)
            res = {'data': run_photometry(mb, rng, mf, orm, cfg)}
    return res, f, [[i for i, b in enumerate(mb.bands)
                     if t.get('shear') is None or b in t['shear']]]


def finite(x):
    return bool(np.all(np.isfinite(x)))


#: values which are measured when a flag is not set
GIVEN = (('psf_flags', ('psf_g', 'psf_T')), ('obj_flags', ('s2n', 'g', 'g_cov')),
         ('T_flags', ('T', 'T_err')),
         ('flags', ('s2n', 'g', 'g_cov', 'T', 'T_err', 'T_ratio', 'psf_g', 'psf_T')))


def check_row(out, x, names, combs, dims, xy):
    """nothing in a row contradicts the rest of it"""
    for p in [n[:-len('_obj_flags')] for n in names if n.endswith('_obj_flags')]:
        def get(n):
            return x[p + '_' + n] if p + '_' + n in names else None
        flags = int(get('flags'))
        for fl, vals in GIVEN:
            if get(fl) is None or get(fl) != 0:
                continue
            for n in vals:
                if get(n) is not None:
                    out.expect(finite(get(n)), 'no-value:' + n, lambda: '%s_%s is 0, but %s is %s'
                               % (p, fl, n, get(n)))
        for n in ('psf_flags', 'obj_flags'):
            if get(n) is not None:
                out.expect(get(n) == 0 or flags != 0, 'hidden:' + n, lambda: '%s_flags is 0, but '
                           '%s is %s' % (p, n, get(n)))
        for n in ('flags', 'psf_flags', 'obj_flags', 'T_flags'):
            if get(n) is not None:
                out.expect(get(n) >= 0 and (get(n) == 0) ==
                           (procflags.get_procflags_str(int(get(n))) == ''), 'unnamed:' + n,
                           lambda: '%s_%s %s has no name' % (p, n, get(n)))
        if get('band_flux') is not None:
            for a, b, c in zip(*[np.atleast_1d(get('band_flux' + k)) for k in
                                 ('_flags', '', '_err')]):
                out.expect(a != 0 or finite([b, c]) and c > 0, 'no-value:flux',
                           lambda: '%s: flux %s +- %s without flag' % (p, b, c))
            if p.startswith(('wmom', 'pgauss', 'ksigma')):
                out.expect(flags != 0 or not np.any(get('band_flux_flags')), 'hidden:flux',
                           lambda: '%s_flags is 0, fluxes %s' % (p, get('band_flux_flags')))
        if 'stamp_flags' in names and x['stamp_flags'] != 0:
            out.expect(flags != 0 and not np.any(np.isfinite(get('T'))) and
                       not np.any(np.isfinite(get('band_flux'))), 'no-stamp',
                       '%s measured without a stamp' % p)
    lab = [''.join(str(b) for b in sorted(c)) for c in combs]
    out.expect(x['shear_bands'] in lab, 'label', lambda: 'shear bands %r' % x['shear_bands'])
    out.expect(0 <= x['mfrac'] <= 1, 'mfrac', lambda: 'masked fraction %s' % x['mfrac'])
    ok = finite(x['psfrec_g']) and finite(x['psfrec_T']) and x['psfrec_T'] > 0
    out.expect(ok == (x['psfrec_flags'] == 0), 'psfrec', lambda: 'psf %s %s with flags %s'
               % (x['psfrec_g'], x['psfrec_T'], x['psfrec_flags']))
    pos = ('sx_row', 'sx_col') if 'sx_row' in names else ('row', 'col')
    for n, o, d in zip(pos, xy, dims):
        out.expect(o - 1 <= x[n] <= o + d, 'outside', lambda: '%s is %s' % (n, x[n]))
    if 'sx_row' in names:
        for n in ('mfrac_img', 'mfrac_noshear'):
            out.expect(0 <= x[n] <= 1, 'mfrac', lambda: '%s is %s' % (n, x[n]))
        for n in pos:
            out.expect(abs(x[n] - x[n + '_noshear']) < 0.5, 'noshear', '%s moved far' % n)
    else:
        out.expect(finite([x['ra'], x['dec']]), 'sky', 'no position on the sky')
        out.expect((x['psfrec_navg'] > 0) == (x['psfrec_flags'] == 0), 'psfrec', 'number of psfs')


def check(out, ref, got, combs, dims, xy):
    """the catalogues of a run against those of the undisturbed run"""
    out.expect(set(got) == set(ref), 'keys', lambda: 'catalogues %s' % sorted(got))
    form = [d for d in ref.values() if d is not None][0]
    for t, d in got.items():
        if d is None:
            continue
        if not out.expect(d.dtype == form.dtype, 'form', lambda: '%s: columns %s, otherwise %s' % (
                t, [c for c in d.dtype.descr if c not in form.dtype.descr],
                [c for c in form.dtype.descr if c not in d.dtype.descr])):
            continue
        both = np.hstack([form, d])
        out.expect(both.dtype == form.dtype and both[len(form):].tobytes() == d.tobytes(),
                   'stack', 'stacking changes the rows')
        for x in d:
            check_row(out, x, d.dtype.names, combs, dims, xy)
    return [None if d is None else (len(d), d.tobytes()) for d in got.values()]


_ref = {}


def run_core(case):
    name = case['run']
    if name not in _ref:
        _ref[name] = core_run(name, CORE[name]['bands'])
    ref = _ref[name][0]
    out = Out()
    bands = case.get('bands') or CORE[name]['bands']
    got, f, combs = core_run(name, bands, case.get('which'), case.get('kind'), case.get('rows'),
                             case.get('psf_bad', ()))
    if got is None:
        out.expect(case.get('bands') is not None, 'no-result', 'no result')
        out.outcome = 'none'
        return out
    sig = check(out, ref, got, combs, c20.DIMS, (0, 0))
    n = len(combs)
    for t, d in got.items():
        want = case.get('rows')
        k = n*(2 if want is None else len(want))
        out.expect((0 if d is None else len(d)) == k, 'nrows', lambda: '%s: %s rows, expected %d'
                   % (t, None if d is None else len(d), k))
    out.steps = f.n
    out.trivial = sig == check(Out(), ref, ref, combs, c20.DIMS, (0, 0))
    out.outcome = hash(str([None if s is None else s[0] for s in sig])), out.trivial
    return out


def run_lsst(case):
    name = case['run']
    if name not in _ref:
        _ref[name] = lsst_run(name)
    ref = _ref[name][0]
    out = Out()
    got, f, combs = lsst_run(name, case.get('which'), case.get('kind'), **case.get('kw', {}))
    if got is None:
        # the psf is needed for the reconvolution
        out.expect(case.get('kind') is not None, 'no-result', 'no result')
        out.outcome = 'none'
        return out
    sig = check(out, ref, got, combs, c28.DIMS, c28.XY0[::-1])
    out.steps = f.n
    out.trivial = sig == check(Out(), ref, ref, combs, c28.DIMS, c28.XY0[::-1])
    out.outcome = str([None if s is None else s[0] for s in sig]), out.trivial
    return out


def faults(name, fits, first, kinds, th):
    """each way of failing of each fit, of each class, and (thorough) of neighbouring fits.
    The fits of the psfs of the whole images do not fail by an exception"""
    res = []
    n = len(fits)
    for k in kinds:
        w = list(range(first if k in EXC else 0, n))
        w += ['obj'] if k in EXC else ['obj', 'psf', 'all']
        if th or k in JOINT:
            # fits are tried again
            w += [list(range(i, i + d)) for d in (2, 4) for i in
                  range(first if k in EXC else 0, n - d + 1)]
        if th:
            w += [[i, i + d] for d in (2, 3) for i in range(first if k in EXC else 0, n - d)]
        # moments for fits of moments, results of the others for the others
        res += [dict(run=name, which=x, kind=k) for x in w if any(
            (fits[i] == 'mom') == (k in MOM) for i in
            (range(n) if isinstance(x, str) else [x] if isinstance(x, int) else x))]
    return res


def warmup():
    run_core(dict(run='wmom1'))
    run_lsst(dict(run='mdet1'))


def spaces(tier):
    th = tier == 'thorough'
    core, data, lsst, ldata = [], [], [], []
    sets = [[OK], [HOLES], [NOMF], [ZMF], [dict(OK, state='one')], [dict(OK, state='neg')],
            [dict(OK, mf='allbut1')], [dict(OK, nodet='allbut1')], [dict(OK, state='zero')],
            [dict(OK, mf='one')]]
    for name, t in CORE.items():
        seen = core_run(name, t['bands'])[1].kinds
        n = len(seen)
        big = n > 25 and not th
        for c in faults(name, seen, n if t.get('color') else len(t['bands']), MOM + JOINT, th):
            if big and isinstance(c['which'], int) and MOM.count(c['kind']) and (
                    c['which'] + MOM.index(c['kind'])) % 3:
                continue
            core.append(c)
        nb = len(t['bands'])
        for rows in ([], [0], [4], [1, 0, 2, 3]):
            data.append(dict(run=name, rows=rows))
        for b in range(nb):
            data.append(dict(run=name, psf_bad=[b]))
            for s in sets:
                for rest in (OK, HOLES) if th or nb < 3 else (OK,):
                    data.append(dict(run=name, bands=[s[0] if k == b else rest
                                                      for k in range(nb)]))
    for name, t in LSST.items():
        seen = lsst_run(name)[1].kinds
        lsst += faults(name, seen, t['nb'], MOM + JOINT, th)
        for p in c28.PLANS:
            for q in c28.PLANS if t['fn'] == 'mdet' else [p]:
                for deb in ('sdss', 'scarlet'):
                    ldata.append(dict(run=name, kw=dict(plans=[p, q], deblender=deb)))
        for mf in ('no', 'zero', 'some'):
            for orm in (0, 1, 3):
                for bv in (0, 1):
                    for nc in (0, 1):
                        for sz in (5, 25):
                            ldata.append(dict(run=name, kw=dict(
                                mfrac=mf, ormasks=orm, badvar=bv, nocen=nc, stamp_size=sz,
                                plans=['two', 'edges'])))
    return [Space('fits', core, run_core), Space('data', data, run_core),
            Space('lsst-fits', lsst, run_lsst), Space('lsst-data', ldata, run_lsst)]
