"""C28: a complete metadetection run on multi-band exposures."""
import contextlib
import copy
import io
import itertools
import galsim
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from ngmix import env
from ngmix.moments import make_mom_result
import lsst.afw.image as afw_image
from metadetect import procflags
from metadetect.lsst import metacal_exposures as mx
from metadetect.lsst.metadetect import run_metadetect

PROPERTY = 'C28'
LEVEL = 'fault_enumeration'
RULE = ('every combination of bands, shear bands, types, reconvolution, detection answers per '
        'sheared image, optional inputs and settings of the menus, and failure of each psf fit; '
        'all columns of all rows are compared with an independent model of the run')
ASSUMPTIONS = ['detection, deblenders, centroids and background of the stack are stand-ins; the '
               'sheared images are those decided by C27, the fits of one object those of C13-C16']
DIMS, XY0 = (44, 41), (-12, 300)
PLANS = {
    'none': [],
    'two': [[(15, 14)], [(28, 30)]],
    'far': [[(30, 12)]],
    'blend': [[(15, 14), (19, 16)], [(28, 30)]],
    'edges': [[(2, 14)], [(15, 14)], [(37, 41)], [(39, 2)]],
}
TYPES = ['noshear', '1p', '1m', '2p', '2m']
ALLPEAKS = [(15, 14), (28, 30), (30, 12), (19, 16), (37, 41), (2, 14), (39, 2)]


def brightness(x, y, b):
    v = 0
    for k, (px, py) in enumerate(ALLPEAKS):
        v = v + (40 + 10*k)*(1 + 0.5*b)*np.exp(-0.5*((x - px - 0.2)**2/(5.0 + 0.4*k)
                                                    + (y - py + 0.1)**2/4.5))
    return v


def build(case):
    nb = case['nb']
    y, x = np.mgrid[:DIMS[0], :DIMS[1]]
    es, ns, ms = [], [], []
    for b in range(nb):
        w = lm.wcs_menu(case.get('wcs', 'rot'), *XY0)
        psf = lm.pos_psf(15, 1.3 + 0.1*b, 0.002, 0.02*(b + 1), -0.03)
        kw = dict(psf=psf, w=w)
        e = lm.exposure(DIMS, lm.BANDS[b], XY0, mask=0, image=0.01*((3*x + 5*y + b) % 7)
                        + brightness(x, y, b) + 0.5*bool(case.get('sky')), **kw)
        e.variance.array[:, :] = 0.01*(b + 1)*(1 + 0.002*x)
        if case.get('badvar'):
            e.variance.array[3:5, 30:38] = [np.inf, 0, np.nan][b % 3]
            e.variance.array[20:, :4] = 7.0
        n = lm.exposure(DIMS, lm.BANDS[b], XY0, mask=0,
                        image=0.03*((7*x + 3*y + 2*b) % 5 - 1.8), var=0.01, **kw)
        m = lm.exposure(DIMS, lm.BANDS[b], XY0, mask=0, image=0, **kw)
        if case['mfrac'] == 'some':
            m.image.array[:, :] = ((x + 2*y + b) % 4 == 0)*0.25*(b + 1)
            m.image.array[10:17, 12:15] = 1.0
        for k, (px, py) in enumerate(ALLPEAKS):
            e.mask.array[py, px] |= 2 << ((k + b) % 3)
        es.append(e)
        ns.append(n)
        ms.append(m)
    orm = None
    if case['ormasks']:
        orm = [((x*(b + 1) + 3*y) % 8 << b).astype('i4') for b in range(case['ormasks'])]
    return (lm.mbexp_of(es), lm.mbexp_of(ns),
            None if case['mfrac'] == 'no' else lm.mbexp_of(ms), orm)


def plan_answer(name):
    ans = []
    for f in PLANS[name]:
        pix = sorted({(px + i, py + j) for px, py in f for i in range(-3, 4) for j in range(-3, 4)
                      if 0 <= px + i < DIMS[1] and 0 <= py + j < DIMS[0]})
        ans.append({'peaks': [(a + XY0[0], c + XY0[1]) for a, c in f],
                    'pix': [(a + XY0[0], c + XY0[1]) for a, c in pix]})
    return ans


def objects(mb, ans, cens, deb, det):
    single, kids = [], []
    for o in ans:
        if len(o['peaks']) == 1 and deb == 'sdss':
            single.append((o['peaks'][0], None))
        else:
            for p, g in zip(o['peaks'], lm.deblend_split(o['pix'], o['peaks'])):
                kids.append((p, g))
    tot, objs = single + kids, []
    for k, (p, g) in enumerate(tot):
        c = cens[k % len(cens)]
        m = 0
        for e in mb.singles:
            m |= int(e.mask.array[p[1] - XY0[1], p[0] - XY0[0]])
        o = {'peak': p, 'cen': None if c is None else (p[0] + c[0], p[1] + c[1]),
             'bmask': m & ~int(det)}
        if deb == 'scarlet':
            ims = [e.image.array.copy() for e in mb.singles]
            for j, (_, g2) in enumerate(tot):
                if j != k:
                    for im in ims:
                        for x, y in g2:
                            im[y - XY0[1], x - XY0[0]] = 0
            o['images'] = ims
        objs.append(o)
    return objs


def det_image(mb):
    """for recognizing which image is given to the detection"""
    if len(mb.singles) == 1:
        return mb.singles[0].image.array.astype('f8')
    n = d = 0
    for e, w in zip(mb.singles, lm.median_weights(mb)):
        g = np.isfinite(e.variance.array) & (e.variance.array > 0)
        n = n + np.where(g, e.image.array*w, 0)
        d = d + w
    return n/d


def make_config(case):
    """the configuration given by the user"""
    c = {}
    if case['types'] is not None:
        c.setdefault('metacal', {})['types'] = list(case['types'])
    if case['reconv'] is not None:
        c.setdefault('metacal', {})['reconv_type'] = case['reconv']
    if case['shear'] is not None:
        c['shear_bands'] = list(case['shear'])
    for n in ('stamp_size', 'deblender'):
        if case.get(n) is not None:
            c[n] = case[n]
    if case.get('sky') is not None:
        c['subtract_sky'] = bool(case['sky'])
    if case.get('fwhm') is not None:
        c['pgauss'] = {'fwhm': case['fwhm']}
    if case.get('thresh') is not None:
        c['detect'] = {case.get('threshname', 'thresh'): case['thresh']}
    return c


def run(case):
    afw_image._reset_planes()
    out = Out()
    mb, nmb, mfmb, orm = build(case)
    pristine, npristine = build(case)[:2]
    det = afw_image.Mask.getPlaneBitMask('DETECTED')
    types = case['types'] if case['types'] is not None else ['noshear', '1p', '1m']
    reconv = case['reconv'] or 'fitgauss'
    idx = [i for i, b in enumerate(mb.bands) if case['shear'] is None or b in case['shear']]
    thresh = case.get('thresh') or 5.0
    size = case.get('stamp_size') or 49
    deb = case.get('deblender') or 'sdss'
    cens = case['cen']
    plans = dict(zip(types, itertools.cycle([plan_answer(p) for p in case['plans']])))
    orig_psfs = [lm.psf_image(e, lm.int_center(e)) for e in mb.singles]
    fail = case.get('fail')
    cur = {}
    detected, skies, skythr = [], [], []

    def handler(kind, info):
        if kind == 'admom' and fail is not None:
            p = orig_psfs[fail]
            if info['obs'].image.shape == p.shape and np.allclose(
                    info['obs'].image, p, rtol=0, atol=1e-6*p.max()):
                return make_mom_result(np.zeros(6), np.zeros((6, 6)))
        if kind == 'gauss_target_psf':
            sig = np.sqrt(-2*np.log(abs(info['psf'].kValue(1.0, 0))/info['psf'].flux))
            return galsim.Gaussian(sigma=1.3*sig, flux=info['psf'].flux)
        if kind == 'lsst.background':
            skies.append(info['exposure'])
            return 0.25 if len(skies) % 2 else 0.125
        if kind == 'lsst.detect':
            e = info['exposure']
            im = e.image.array.astype('f8')
            d = {t: np.abs(im - a).max() for t, a in cur['det'].items()} if 'det' in cur else {}
            t = min(d, key=d.get) if d else None
            if t is None or d[t] > 1e-4*np.abs(cur['det'][t]).max():
                skythr.append(info['config'].thresholdValue)
                return []
            detected.append((t, info['config'].thresholdValue))
            return plans[t]
        if kind == 'lsst.centroid':
            k = info['source'].getFootprint().getPeaks()[0]
            p = (k.getIx(), k.getIy())
            i = [o['peak'] for o in cur['objs'][detected[-1][0]]].index(p)
            c = cur['objs'][detected[-1][0]][i]['cen']
            return (np.nan, np.nan) if c is None else c
        return None

    # the model
    if case.get('sky'):
        for e in pristine.singles:
            e.image.array[:, :] -= 0.375
    stats = lm.ref_psf_stats(pristine, idx)
    per = np.zeros(len(mb.bands), dtype=[('e1', 'f8'), ('e2', 'f8'), ('T', 'f8'), ('wgt', 'f8'),
                                         ('is_shear_band', bool)])
    for i, p in enumerate(stats['perband']):
        per[i] = p
    with env.use(lambda k, i: handler(k, i) if k == 'gauss_target_psf' else None):
        want = mx.get_metacal_mbexps_fixnoise(
            pristine, npristine, types=list(types),
            psf_stats=per if reconv == 'fitgauss' else None)[0]
    cur['det'] = {t: det_image(want[t]) for t in types}
    cur['objs'] = {t: objects(want[t], plans[t], cens, deb, det) for t in types}
    config = make_config(case)
    sconfig = copy.deepcopy(config)
    before, nbefore = lm.snaps(mb), lm.snaps(nmb)
    mfbefore = None if mfmb is None else lm.snaps(mfmb)
    sorm = None if orm is None else [o.copy() for o in orm]
    kw = {}
    if mfmb is not None:
        kw['mfrac_mbexp'] = mfmb
    if orm is not None:
        kw['ormasks'] = orm
    if case.get('psfstats'):
        kw['get_psf_stats'] = True
    with env.use(handler), contextlib.redirect_stdout(io.StringIO()):
        res = run_metadetect(mb, nmb, np.random.RandomState(4), config=config or None, **kw)
    out.expect(config == sconfig, 'config', lambda: 'the configuration was changed to %s' % config)
    for tag, a, m in (('noise', nbefore, nmb), ('mfrac', mfbefore, mfmb), ('data', before, mb)):
        if m is None:
            continue
        for x, s in zip(a, lm.snaps(m)):
            skip = ('image', 'mask') if case.get('sky') and tag == 'data' else ()
            bad = lm.same(x, s, skip=skip)
            out.expect(not bad, 'input', lambda: '%s: %s of the input changed' % (tag, bad))
    if orm is not None:
        out.expect(all(np.array_equal(a, b) for a, b in zip(orm, sorm)), 'input',
                   'ormasks were changed')
    out.expect(len(skies) == (2*len(mb.bands) if case.get('sky') else 0), 'sky',
               'the sky was subtracted %d times' % len(skies))
    if fail is not None and reconv == 'fitgauss':
        out.expect(res is None, 'psf-failure', 'result without the psf needed for it')
        out.outcome = 'none'
        return out
    out.expect(res is not None, 'result', 'no result')
    if res is None:
        return out
    failed = fail is not None
    keys = list(res)
    wkeys = list(types) + (['psf_stats'] if case.get('psfstats') else [])
    out.expect(keys == wkeys, 'keys', 'keys %s expected %s' % (keys, wkeys))
    out.expect([t for t, _ in detected] == list(types), 'detections',
               'detections %s' % (detected,))
    out.expect(skythr == [thresh]*len(skies), 'sky-threshold', 'thresholds of the detections '
               'while subtracting the sky: %s' % (skythr,))
    out.expect(all(t == thresh for _, t in detected), 'threshold', 'thresholds %s' % (detected,))
    if case.get('psfstats') and 'psf_stats' in res:
        check_stats(out, res['psf_stats'], stats, per, failed, case)
    w = mb.singles[0].getWcs()
    J = lm.jac_at(w, *lm.int_center(mb.singles[0]))
    if mfmb is not None:
        wg = lm.median_weights(mb)
        mfim = sum(a*e.image.array.astype('f8') for a, e in zip(wg, mfmb.singles))/sum(wg)
    else:
        mfim = np.zeros(DIMS)
    ormim = 0
    for o in orm or [np.zeros(DIMS, 'i4')]:
        ormim = ormim | o
    tot = []
    for t in types:
        rows = lm.ref_rows(want[t], [e.image.array for e in want[t].singles], cur['objs'][t], size,
                           idx, case.get('fwhm') or 2.0)
        for r in rows:
            x, y = (float(np.float32(r['col'])) - XY0[0], float(np.float32(r['row'])) - XY0[1])
            r['ormask'] = int(lm.ref_pixel(ormim, x, y))
            r['mfrac'] = lm.ref_mfrac(mfim, [x], [y], J)[0]
            r['psfrec_flags'] = procflags.PSF_FAILURE if failed else 0
            r['psfrec_g'] = [-9999.0]*2 if failed else [stats['g1'], stats['g2']]
            r['psfrec_T'] = -9999.0 if failed else stats['T']
            if not failed:
                r['psfrec_navg'] = len(idx)
        if t in res:
            lm.compare_rows(out, '%s-' % t if t == 'noshear' else 'sheared-', res[t], rows)
        tot.append((t, len(rows)))
    out.outcome = (tuple(tot), failed, tuple(idx))
    return out


def check_stats(out, got, stats, per, failed, case):
    if failed:
        out.expect(got['flags'] == procflags.PSF_FAILURE, 'psf-stats', 'flags %s' % got['flags'])
        return
    out.expect(got['flags'] == 0 and got['navg'] == stats['navg'], 'psf-stats',
               'flags %s navg %s' % (got['flags'], got['navg']))
    for n in ('e1', 'e2', 'g1', 'g2', 'T'):
        out.expect(np.isclose(got[n], stats[n], rtol=1e-4, atol=1e-6), 'psf-stats-' + n,
                   lambda: '%s is %s, expected %s' % (n, got[n], stats[n]))
    p = got['perband']
    for n in per.dtype.names:
        out.expect(len(p) == len(per) and np.allclose(p[n], per[n], rtol=1e-4, atol=1e-6),
                   'psf-stats-perband', lambda: 'perband %s is %s, expected %s' % (
                       n, p[n], per[n]))


def run_bad(case):
    """settings which can not be used are refused, not ignored"""
    afw_image._reset_planes()
    out = Out(outcome=case['name'])
    mb, nmb, mfmb, orm = build(BASE)
    before = lm.snaps(mb)
    config = copy.deepcopy(case['config'])
    try:
        with env.use(lambda k, i: [] if k == 'lsst.detect' else None):
            run_metadetect(mb, nmb, np.random.RandomState(4), mfrac_mbexp=mfmb, config=config)
    except Exception:
        out.expect(config == case['config'], 'config', 'the configuration was changed')
        for b, s in zip(before, lm.snaps(mb)):
            out.expect(not lm.same(b, s), 'input', 'the data were changed')
        return out
    out.bad('accepted', 'the setting %s was accepted' % case['name'])
    return out


CEN = {'off': [(0.25, -0.375), (-0.5, 0.25), (0.125, 0.5)], 'nan': [(0.25, 0.125), None],
       'out': [(-2.75, 0.25), (0.0, 0.0), (3.75, -0.5), (1.75, -2.75)]}
BASE = {'nb': 2, 'types': None, 'reconv': None, 'shear': None, 'mfrac': 'some', 'ormasks': 2,
        'plans': ['two'], 'cen': CEN['off'], 'stamp_size': 9}


def warmup():
    run(dict(BASE, plans=['two', 'blend']))


def spaces(tier):
    th = tier == 'thorough'
    cases = []

    def add(**kw):
        cases.append(dict(BASE, **kw))
    # detection answers per sheared image
    names = list(PLANS)
    for p in itertools.product(names if th else ('none', 'two', 'blend'), repeat=3):
        for deb in ('sdss', 'scarlet'):
            add(plans=list(p), deblender=deb, mfrac='zero')
    for p in names:
        for deb in ('sdss', 'scarlet'):
            for cn in CEN:
                for mf in ('no', 'zero', 'some'):
                    for orm in (0, 1, 2, 3):
                        if th or (mf, orm) in (('no', 0), ('zero', 1), ('some', 2), ('some', 3)):
                            add(plans=[p, 'two'], deblender=deb, cen=CEN[cn], mfrac=mf,
                                ormasks=orm, psfstats=int(mf == 'some'))
    # types and bands
    tl = [None] + [list(c) for n in (1, 2) for c in itertools.permutations(TYPES, n)]
    tl += [TYPES, TYPES[::-1]]
    for ty in tl if th else tl[::3] + tl[-2:]:
        for rc in (None, 'fitgauss', 'gauss'):
            add(types=ty, reconv=rc, plans=['two', 'blend', 'far', 'none', 'two'])
    shears = {1: [None, ['g']], 2: [None, ['r'], ['g', 'r'], ['r', 'g']],
              3: [None, ['i', 'g'], ['r'], ['g', 'r']]}
    for nb in (1, 2, 3):
        for sh in shears[nb]:
            for rc in ('fitgauss', 'gauss'):
                for w in ('std', 'rot', 'curved'):
                    for bv in (0, 1):
                        if th or (w != 'rot' and (bv or sh is None)):
                            add(nb=nb, shear=sh, reconv=rc, wcs=w, badvar=bv, psfstats=1)
                for f in range(nb):
                    for ps in (0, 1):
                        add(nb=nb, shear=sh, reconv=rc, fail=f, psfstats=ps,
                            plans=['two', 'none'])
    for nb, shs in ((4, [None, ['z']]), (5, [None, ['y', 'r']]), (6, [None, ['u', 'g', 'z']])):
        for sh in shs:
            for deb in ('sdss', 'scarlet'):
                add(nb=nb, shear=sh, deblender=deb, psfstats=1, mfrac='some', ormasks=3)
                for f in range(nb):
                    add(nb=nb, shear=sh, deblender=deb, fail=f, plans=['two', 'none'])
    # settings
    for size in (None, 5, 11, 25):
        for fw in (None, 1.2):
            for tv, tn in ((None, ''), (3.25, 'thresh'), (8.0, 'thresholdValue')):
                for sky in (None, 0, 1):
                    for deb in (None, 'scarlet') if th else (None,):
                        add(stamp_size=size, fwhm=fw, thresh=tv, threshname=tn, sky=sky,
                            deblender=deb, plans=['two', 'blend'])
    bad = [{'name': n, 'config': c} for n, c in (
        ('unknown key', {'stamp': 3}), ('unknown type', {'metacal': {'types': ['noshear', '3p']}}),
        ('unknown kernel', {'metacal': {'reconv_type': 'dilate'}}),
        ('unknown metacal key', {'metacal': {'step': 0.02}}),
        ('unknown deblender', {'deblender': 'none'}),
        ('unknown pgauss key', {'pgauss': {'size': 2.0}}),
        ('unknown detect key', {'detect': {'threshold': 3.0}}),
        ('unknown shear band', {'shear_bands': ['g', 'Y']}),
        ('only unknown shear bands', {'shear_bands': ['Y']}),
        ('stamp size', {'stamp_size': 'big'}), ('sky', {'subtract_sky': 'yes'}))]
    return [Space('runs', cases, run), Space('refused', bad, run_bad)]
