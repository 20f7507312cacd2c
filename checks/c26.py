"""C26: detection, deblending and measurement of multi-band exposures."""
import contextlib
import copy
import io
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from ngmix import env
import lsst.afw.image as afw_image
from metadetect.lsst import measure

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('every combination of detection answer (blends, borders, nothing), deblender, bands, shear '
        'bands, centroid answers, mask bits and data without weight of the menus; rows are compared '
        'with an independent model of the measurement of each object')
ASSUMPTIONS = ['detection, deblenders, centroids and multi-band images of the stack are stand-ins; '
               'the fits of one object are those decided by C13-C16']
DIMS, XY0 = (44, 40), (-12, 300)
SIZE = 9

#: pixels relative to the corner: list of footprints with peaks
PLANS = {
    'none': [],
    'one': [[(15, 14)]],
    'two': [[(15, 14)], [(28, 30)]],
    'blend': [[(15, 14), (19, 16)], [(28, 30)]],
    'blendfirst-single': [[(28, 30)], [(15, 14), (19, 16)]],
    'triple': [[(18, 20), (22, 20), (20, 24)]],
    'twoblends': [[(12, 12), (16, 13)], [(26, 28), (26, 32)], [(10, 33)]],
    'edges': [[(2, 14)], [(15, 14)], [(37, 41)], [(4, 4)], [(3, 20)]],
}


def brightness(x, y, peaks, b):
    v = 0
    for k, (px, py) in enumerate(peaks):
        v = v + (40 + 10*k)*(1 + 0.5*b)*np.exp(-0.5*((x - px - 0.2)**2/(1.5 + 0.2*k)
                                                    + (y - py + 0.1)**2/1.7))
    return v


def build(case):
    nb = case['nb']
    plan = PLANS[case['plan']]
    peaks = [p for f in plan for p in f]
    y, x = np.mgrid[:DIMS[0], :DIMS[1]]
    es = []
    for b in range(nb):
        e = lm.exposure(DIMS, lm.BANDS[b], XY0, kind=case.get('kind', 'F'),
                        psf=lm.pos_psf(7, 1.1 + 0.1*b, 0.003),
                        w=lm.wcs_menu(case.get('wcs', 'rot'), *XY0), mask=0,
                        image=0.01*((3*x + 5*y + b) % 7) + brightness(x, y, peaks, b))
        e.variance.array[:, :] = 0.01*(b + 1)*(1 + 0.002*x)
        es.append(e)
    bright = 1 << afw_image.Mask.addMaskPlane('BRIGHT')
    edge = afw_image.Mask.getPlaneBitMask('EDGE')
    det = afw_image.Mask.getPlaneBitMask('DETECTED')
    if case.get('mask'):
        for k, (px, py) in enumerate(peaks):
            e = es[k % nb]
            e.mask.array[py, px] |= (2 << (k % 3))
            e.mask.array[py, px + 1] |= bright
            es[-1].mask.array[py, px] |= [0, edge, bright][k % 3]
        es[0].mask.array[0, 0] |= det
    if case.get('dead') is not None and case['dead'] < len(peaks):
        px, py = peaks[case['dead']]
        es[-1].variance.array[max(0, py - 6):py + 7, max(0, px - 6):px + 7] = 0
    ans = []
    for f in plan:
        pix = sorted({(px + i, py + j) for px, py in f for i in range(-3, 4) for j in range(-3, 4)
                      if 0 <= px + i < DIMS[1] and 0 <= py + j < DIMS[0]})
        ans.append({'peaks': [(a + XY0[0], c + XY0[1]) for a, c in f],
                    'pix': [(a + XY0[0], c + XY0[1]) for a, c in pix]})
    return lm.mbexp_of(es), ans, det


def objects(case, mb, ans, det, masks):
    """the expected objects in the expected order of both deblenders"""
    single, kids = [], []
    for o in ans:
        if len(o['peaks']) == 1 and case['deblender'] == 'sdss':
            single.append((o['peaks'][0], None))
        else:
            for p, g in zip(o['peaks'], lm.deblend_split(o['pix'], o['peaks'])):
                kids.append((p, g))
    objs = []
    tot = single + kids
    for k, (p, g) in enumerate(tot):
        c = case['cen'][k % len(case['cen'])]
        m = 0
        for a in masks:
            m |= int(a[p[1] - XY0[1], p[0] - XY0[0]])
        o = {'peak': p, 'cen': None if c is None else (p[0] + c[0], p[1] + c[1]),
             'bmask': m & ~int(det)}
        if case['deblender'] == 'scarlet':
            ims = [e.image.array.copy() for e in mb.singles]
            for j, (_, g2) in enumerate(tot):
                if j != k:
                    for im in ims:
                        for x, y in g2:
                            im[y - XY0[1], x - XY0[0]] = 0
            o['images'] = ims
        objs.append(o)
    return objs


def run(case):
    afw_image._reset_planes()
    out = Out()
    mb, ans, det = build(case)
    before = lm.snaps(mb)
    peaks = [tuple(p) for o in ans for p in o['peaks']]
    rng = np.random.RandomState(3)
    ncen, order = [0], []

    def handler(kind, info):
        if kind == 'lsst.detect':
            return ans
        if kind == 'lsst.centroid':
            k = info['source'].getFootprint().getPeaks()[0]
            p = (k.getIx(), k.getIy())
            order.append(p)
            i = [o['peak'] for o in objs].index(p)
            c = objs[i]['cen']
            return (np.nan, np.nan) if c is None else c
        return None
    objs = objects(case, mb, ans, det, [e.mask.array.copy() for e in mb.singles])
    config = {'pgauss': {'fwhm': case['fwhm']}, 'shear_bands': case['shear'],
              'stamp_size': case['size']}
    conf = {'pgauss': dict(config['pgauss']), 'stamp_size': case['size'],
            'shear_bands': None if case['shear'] is None else list(case['shear'])}
    idx = [i for i, b in enumerate(mb.bands) if case['shear'] is None or b in case['shear']]
    ims = [e.image.array.copy() for e in mb.singles]
    with env.use(handler), contextlib.redirect_stdout(io.StringIO()):
        task = measure.get_detect_and_deblend_task(rng=rng, thresh=7.0,
                                                   deblender=case['deblender'])
        sources, detexp, model_data = task.run(mbexp=mb)
        if case.get('clear') and detexp is not None:
            # peaks need not be where pixels were detected
            detexp.mask.array[:, :] &= ~det
        res = measure.measure(mbexp=mb, detexp=detexp, sources=sources, model_data=model_data,
                              meas_task=task.meas, config=conf, rng=rng)
        if len(sources) > 0:
            first = [s.getFootprint().getPeaks()[0] for s in sources]
            want = [int(detexp.mask.array[p.getIy() - detexp.getY0(), p.getIx() - detexp.getX0()])
                    for p in first]
            got = [int(b) for b in measure.get_bmasks(sources, detexp)]
            out.expect(got == want, 'bmasks', lambda: 'bmasks %s, expected %s' % (got, want))
    rows = lm.ref_rows(mb, ims, objs, case['size'], idx, case['fwhm'])
    if not rows:
        out.expect(res is None, 'none', 'a result without any object')
    else:
        lm.compare_rows(out, '', res, rows)
    if res is not None:
        for n in ('ormask', 'mfrac', 'psfrec_flags', 'psfrec_g', 'psfrec_T', 'psfrec_navg'):
            out.expect(n in res.dtype.names, 'columns', 'column %s is missing' % n)
        out.expect(not any('pgauss_psf' in n or n in ('pgauss_g', 'pgauss_g_cov')
                           for n in res.dtype.names), 'columns', 'columns that should not exist')
    out.expect(order == [o['peak'] for o in objs], 'order', 'measured %s, expected %s' % (
        order, [o['peak'] for o in objs]))
    for b, s in zip(before, lm.snaps(mb)):
        # detection marks its pixels in the mask of a single exposure
        b, s = dict(b, mask=b['mask'] & ~det), dict(s, mask=s['mask'] & ~det)
        bad = lm.same(b, s)
        out.expect(not bad, 'input', lambda: '%s of the input changed' % bad)
    out.expect(conf == config, 'config', 'the configuration was changed')
    out.outcome = (len(rows), tuple(r['stamp_flags'] for r in rows),
                   tuple(int(r['gauss_flags']) for r in rows))
    _ = peaks, ncen
    return out


def run_detect(case):
    """what is given to the detection, and when nothing can be detected"""
    afw_image._reset_planes()
    out = Out()
    mb, ans, det = build(dict(case, plan='two'))
    for i, st in enumerate(case['state']):
        v = mb.singles[i].variance.array
        if st == 'zero':
            v[:, :] = 0
        elif st == 'inf':
            v[:, :] = np.inf
        elif st == 'part':
            v[10:20, 5:30] = 0
            v[30:33, 5:9] = np.inf
            v[34, 5:9] = np.nan
    seen = []

    def handler(kind, info):
        if kind == 'lsst.detect':
            e = info['exposure']
            seen.append((e, lm.snap(e), info['config'].thresholdValue))
            return ans
        return None
    before = lm.snaps(mb)
    with env.use(handler):
        task = measure.get_detect_and_deblend_task(rng=np.random.RandomState(1),
                                                   thresh=case['thresh'])
        got = task.run(mbexp=mb)
    out.expect(len(got) == 3, 'result', 'run gave %d items' % len(got))
    usable = [np.any(np.isfinite(b['variance']) & (b['variance'] > 0)) for b in before]
    if len(got) != 3:
        return out
    sources, detexp, md = got
    out.expect(md is None, 'models', 'models without scarlet')
    out.outcome = (len(sources), tuple(usable))
    if not any(usable) and len(usable) > 1:
        out.expect(len(sources) == 0 and not seen, 'nothing', 'detected without any data')
        with env.use(handler):
            res = measure.measure(mb, detexp, sources, md, task.meas, {}, None)
        out.expect(res is None, 'nothing', 'result without any data')
        return out
    out.expect(len(seen) == 1, 'once', 'detection ran %d times' % len(seen))
    e, s, thr = seen[0]
    out.expect(thr == case['thresh'], 'threshold', 'threshold %s' % thr)
    out.expect(isinstance(e, afw_image.ExposureF), 'type', 'detection on %s' % type(e))
    if len(usable) == 1:
        want = before[0]['image'].astype('f4')
        out.expect(np.array_equal(s['image'], want), 'image', 'another image')
    else:
        use = [i for i in range(len(usable)) if usable[i]]
        ws, num, wpix = 0, 0, 0
        for i in use:
            v = before[i]['variance'].astype('f8')
            g = np.isfinite(v) & (v > 0)
            w = 1/np.median(v[g])
            ws += w
            num = num + np.where(g, before[i]['image']*w, 0)
            wpix = wpix + np.where(g, 1/np.where(g, v, 1), 0)
        everywhere = np.ones(DIMS, bool)
        for i in use:
            v = before[i]['variance']
            everywhere &= np.isfinite(v) & (v > 0)
        out.expect(np.allclose(s['image'][everywhere], (num/ws)[everywhere], rtol=1e-5, atol=1e-5),
                   'image', lambda: 'detection image differs from the weighted mean: %s, '
                   'expected %s' % (s['image'][14, 15], (num/ws)[14, 15]))
        wv = np.where(wpix > 0, 1/np.where(wpix > 0, wpix, 1), np.inf)
        out.expect(np.allclose(s['variance'], wv, rtol=1e-5), 'variance',
                   lambda: 'variance of the detection image: %s expected %s' % (
                       s['variance'][14, 15], wv[14, 15]))
    m = 0
    for b in before:
        m = m | b['mask']
    out.expect(np.array_equal(s['mask'] & ~det, m & ~det), 'mask', 'mask differs')
    for b, n in zip(before, lm.snaps(mb)):
        bad = lm.same(dict(b, mask=b['mask'] & ~det), dict(n, mask=n['mask'] & ~det))
        out.expect(not bad, 'input', lambda: '%s of the input changed' % bad)
    return out


SETTINGS = [
    ('detect', 'minPixels', 3), ('detect', 'nSigmaToGrow', 1.5), ('detect', 'nSigmaForKernel', 5.0),
    ('detect', 'thresholdType', 'pixel_stdev'), ('deblend', 'maxFootprintArea', 400),
]
DETECT_KEYS = [k for s, k, v in SETTINGS if s == 'detect']
THRESHES = ('absent', None, 3.25, 10)


def run_settings(case):
    """the settings of the caller reach the detection; they stay as they were"""
    afw_image._reset_planes()
    out = Out()
    mb, ans, det = build({'plan': 'two', 'nb': 1, 'mask': 0, 'kind': 'F'})
    seen = []

    def handler(kind, info):
        if kind == 'lsst.detect':
            seen.append({k: getattr(info['config'], k)
                         for k in DETECT_KEYS + ['thresholdValue']})
            return ans
        return None

    def go(cfg, thresh):
        kw = {} if thresh == 'absent' else {'thresh': thresh}
        if cfg is not None:
            kw['config'] = cfg
        del seen[:]
        with env.use(handler):
            task = measure.get_detect_and_deblend_task(
                rng=np.random.RandomState(1), deblender=case['deblender'], **kw)
            if case['deblender'] == 'sdss':
                task.run(mbexp=mb)
            else:
                with contextlib.redirect_stdout(io.StringIO()):
                    task.run(mbexp=mb)
        return dict(seen[0]), task.deblend.config

    base, dbase = go(None, 'absent')
    cfg = None
    if case['set'] is not None:
        cfg = {}
        for i in case['set']:
            sub, k, v = SETTINGS[i]
            cfg.setdefault(sub, {})[k] = v
        if case['cfgthresh']:
            cfg.setdefault('detect', {})['thresholdValue'] = 7.5
    kept = copy.deepcopy(cfg)
    got, dgot = go(cfg, case['thresh'])
    out.expect(cfg == kept, 'kept', lambda: 'the settings %r became %r' % (kept, cfg))
    want = dict(base)
    for i in case['set'] or ():
        sub, k, v = SETTINGS[i]
        if sub == 'detect':
            want[k] = v
        else:
            out.expect(getattr(dgot, k) == v, 'deblend', lambda: '%s is %r' % (k, getattr(dgot, k)))
    del want['thresholdValue']
    for k in want:
        out.expect(got[k] == want[k], 'detect', lambda: '%s is %r, expected %r' % (
            k, got[k], want[k]))
    t = case['thresh']
    if t not in ('absent', None):
        out.expect(got['thresholdValue'] == t, 'threshold', lambda: repr(got))
    elif not case['cfgthresh']:
        out.expect(got['thresholdValue'] == base['thresholdValue'], 'threshold', lambda: repr(got))
    elif t is None:
        out.expect(got['thresholdValue'] == 7.5, 'threshold', lambda: repr(got))
    # nothing of it is left behind
    again, dagain = go(None, 'absent')
    out.expect(again == base and getattr(dagain, 'maxFootprintArea', 0)
               == getattr(dbase, 'maxFootprintArea', 0), 'left',
               lambda: 'defaults %r became %r' % (base, again))
    out.outcome = tuple(sorted(got.items(), key=str))
    return out


def warmup():
    run({'plan': 'blend', 'nb': 2, 'deblender': 'sdss', 'cen': [(0, 0)], 'fwhm': 2.0,
         'shear': None, 'size': 9, 'mask': 1})


def spaces(tier):
    th = tier == 'thorough'
    cases = []
    cens = {'zero': [(0.0, 0.0)], 'off': [(0.25, -0.375), (-0.5, 0.25), (0.125, 0.5)],
            'nan': [(0.25, 0.125), None], 'allnan': [None],
            'far': [(1.75, -0.25), (-2.25, 1.5), (0.0, 3.0)]}
    shears = {1: [None, ['g']], 2: [None, ['r'], ['g', 'r'], ['r', 'g']],
              3: [None, ['i', 'g'], ['r']]}
    for plan in PLANS:
        for nb in (1, 2, 3):
            for deb in ('sdss', 'scarlet'):
                for sh in shears[nb]:
                    for cn in cens:
                        for mask in (0, 1):
                            for size, fwhm in ((9, 1.2), (8, 2.0)) if th else ((9, 1.2),):
                                for w in (('rot', 'curved', 'std') if th else ('curved',)):
                                    cases.append({
                                        'plan': plan, 'nb': nb, 'deblender': deb, 'shear': sh,
                                        'cen': cens[cn], 'mask': mask, 'size': size,
                                        'fwhm': fwhm, 'wcs': w,
                                        'kind': 'D' if mask and deb == 'sdss' else 'F'})
    for plan in PLANS:
        for nb, sh in ((4, None), (5, ['y', 'r']), (6, ['u', 'g', 'z'])):
            for deb in ('sdss', 'scarlet'):
                cases.append({'plan': plan, 'nb': nb, 'deblender': deb, 'shear': sh,
                              'cen': cens['nan'], 'mask': 1, 'size': 9, 'fwhm': 1.2,
                              'wcs': 'curved', 'kind': 'F'})
    for plan in ('two', 'blend', 'twoblends'):
        for deb in ('sdss', 'scarlet'):
            for nb in (1, 2):
                for dead in range(5):
                    for size in (5, 9, 11, 25, 60):
                        cases.append({'plan': plan, 'nb': nb, 'deblender': deb, 'shear': None,
                                      'cen': cens['off'], 'mask': 1, 'dead': dead, 'size': size,
                                      'fwhm': 2.0})
    st = ('ok', 'part', 'zero', 'inf')
    det = []
    for t in (5.0, 3.25):
        det += [{'nb': 1, 'state': [a], 'thresh': t, 'mask': m, 'kind': k}
                for a in ('ok', 'part') for m in (0, 1) for k in 'FD']
        det += [{'nb': 2, 'state': [a, b], 'thresh': t, 'mask': m, 'kind': k}
                for a in st for b in st for m in (0, 1) for k in 'FD']
        det += [{'nb': 3, 'state': [a, b, c], 'thresh': t, 'mask': 1, 'kind': 'F'}
                for a in st for b in st for c in st]
    for nb in (4, 6):
        for k in range(nb):
            for s in st:
                det.append({'nb': nb, 'state': ['ok']*k + [s] + ['ok']*(nb-k-1), 'thresh': 5.0,
                            'mask': 1, 'kind': 'F'})
    for plan in PLANS:
        for nb in (1, 2):
            for deb in ('sdss', 'scarlet'):
                for clear in (0, 1):
                    cases.append({'plan': plan, 'nb': nb, 'deblender': deb, 'shear': None,
                                  'cen': cens['far'], 'mask': 1, 'size': 9, 'fwhm': 1.2,
                                  'clear': clear, 'wcs': 'rot', 'kind': 'F'})
    sets = []
    for deb in ('sdss', 'scarlet'):
        n = len(SETTINGS) - (deb == 'scarlet')
        subs = [None] + [[i for i in range(n) if b >> i & 1] for b in range(2**n)]
        for sub in subs:
            for t in THRESHES:
                for ct in ((0,) if sub is None else (0, 1)):
                    sets.append({'set': sub, 'thresh': t, 'cfgthresh': ct, 'deblender': deb})
    return [Space('rows', cases, run), Space('detection', det, run_detect),
            Space('settings', sets, run_settings)]
