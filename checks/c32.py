"""C32: photometry of multi-band exposures."""
import contextlib
import copy
import io
import itertools
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from ngmix import env
from ngmix.moments import make_mom_result
import lsst.afw.image as afw_image
from metadetect import procflags
from metadetect.lsst.photometry import run_photometry
from checks import c28

PROPERTY = 'C32'
LEVEL = 'fault_enumeration'
RULE = ('every combination of detection answer, deblender, bands, shear bands, optional inputs and '
        'settings of the menus, and failure of each psf fit; all columns of all rows are compared '
        'with an independent model')
ASSUMPTIONS = ['detection, deblenders, centroids and background of the stack are stand-ins; the '
               'fits of one object are those decided by C13-C16']


def run(case):
    afw_image._reset_planes()
    out = Out()
    mb, _, mfmb, orm = c28.build(case)
    ref = c28.build(case)[0]
    det = afw_image.Mask.getPlaneBitMask('DETECTED')
    idx = [i for i, b in enumerate(mb.bands) if case['shear'] is None or b in case['shear']]
    ans = c28.plan_answer(case['plan'])
    fail = case.get('fail')
    psfs = [lm.psf_image(e, lm.int_center(e)) for e in mb.singles]
    if case.get('sky'):
        for e in ref.singles:
            e.image.array[:, :] -= 0.375
    dim = c28.det_image(ref)
    detected, skies = [], []
    objs = c28.objects(ref, ans, case['cen'], case.get('deblender') or 'sdss', det)

    def handler(kind, info):
        if kind == 'admom' and fail is not None:
            p = psfs[fail]
            if info['obs'].image.shape == p.shape and np.allclose(
                    info['obs'].image, p, rtol=0, atol=1e-6*p.max()):
                return make_mom_result(np.zeros(6), np.zeros((6, 6)))
        if kind == 'lsst.background':
            skies.append(1)
            return 0.25 if len(skies) % 2 else 0.125
        if kind == 'lsst.detect':
            im = info['exposure'].image.array
            if case.get('sky') and len(skies) < 2*len(mb.bands) or (
                    np.abs(im - dim).max() > 1e-4*dim.max()):
                return []
            detected.append(info['config'].thresholdValue)
            # the sky task detects in the last band, too
            return ans
        if kind == 'lsst.centroid':
            k = info['source'].getFootprint().getPeaks()[0]
            i = [o['peak'] for o in objs].index((k.getIx(), k.getIy()))
            c = objs[i]['cen']
            return (np.nan, np.nan) if c is None else c
        return None
    config = {k: v for k, v in c28.make_config(dict(case, types=None, reconv=None)).items()}
    sconfig = copy.deepcopy(config)
    before = lm.snaps(mb)
    kw = {}
    if mfmb is not None:
        kw['mfrac_mbexp'] = mfmb
    if orm is not None:
        kw['ormasks'] = orm
        sorm = [o.copy() for o in orm]
    with env.use(handler), contextlib.redirect_stdout(io.StringIO()):
        res = run_photometry(mb, np.random.RandomState(4), config=config or None, **kw)
    out.expect(config == sconfig, 'config', 'the configuration was changed')
    if orm is not None:
        out.expect(all(np.array_equal(a, b) for a, b in zip(orm, sorm)), 'input',
                   'ormasks were changed')
    for x, s in zip(before, lm.snaps(mb)):
        skip = ('image', 'mask') if case.get('sky') else ()
        # detection marks its pixels in a single exposure
        bad = lm.same(dict(x, mask=x['mask'] & ~det), dict(s, mask=s['mask'] & ~det), skip=skip)
        out.expect(not bad, 'input', lambda: '%s of the input changed' % bad)
    if case.get('sky'):
        for e, s in zip(ref.singles, mb.singles):
            out.expect(np.array_equal(e.image.array, s.image.array), 'sky', 'sky is not subtracted')
    out.expect(len(skies) == (2*len(mb.bands) if case.get('sky') else 0), 'sky',
               'the sky was subtracted %d times' % len(skies))
    out.expect(detected and set(detected) == {case.get('thresh') or 5.0}, 'threshold',
               'thresholds %s' % (detected,))
    rows = lm.ref_rows(ref, [e.image.array for e in ref.singles], objs,
                       case.get('stamp_size') or 49, idx, case.get('fwhm') or 2.0)
    stats = lm.ref_psf_stats(ref, idx)
    J = lm.jac_at(mb.singles[0].getWcs(), *lm.int_center(mb.singles[0]))
    mfim = np.zeros(c28.DIMS)
    if mfmb is not None:
        wg = lm.median_weights(mb)
        mfim = sum(a*e.image.array.astype('f8') for a, e in zip(wg, mfmb.singles))/sum(wg)
    ormim = 0
    for o in orm or [np.zeros(c28.DIMS, 'i4')]:
        ormim = ormim | o
    failed = fail is not None
    for r in rows:
        x = float(np.float32(r['col'])) - c28.XY0[0]
        y = float(np.float32(r['row'])) - c28.XY0[1]
        r['ormask'] = int(lm.ref_pixel(ormim, x, y))
        r['mfrac'] = lm.ref_mfrac(mfim, [x], [y], J)[0]
        r['psfrec_flags'] = procflags.PSF_FAILURE if failed else 0
        r['psfrec_g'] = [-9999.0]*2 if failed else [stats['g1'], stats['g2']]
        r['psfrec_T'] = -9999.0 if failed else stats['T']
        r['psfrec_navg'] = 0 if failed else len(idx)
    lm.compare_rows(out, '', res, rows)
    out.outcome = (len(rows), failed, tuple(idx))
    return out


def run_bad(case):
    afw_image._reset_planes()
    out = Out(outcome=case['name'])
    mb = c28.build(BASE)[0]
    config = copy.deepcopy(case['config'])
    try:
        with env.use(lambda k, i: [] if k == 'lsst.detect' else None):
            run_photometry(mb, np.random.RandomState(4), config=config)
    except Exception:
        out.expect(config == case['config'], 'config', 'the configuration was changed')
        return out
    out.bad('accepted', 'the setting %s was accepted' % case['name'])
    return out


BASE = dict(c28.BASE, plan='two')


def warmup():
    run(dict(BASE, plan='blend'))


def spaces(tier):
    th = tier == 'thorough'
    cases = []

    def add(**kw):
        cases.append(dict(BASE, **kw))
    shears = {1: [None, ['g']], 2: [None, ['r'], ['r', 'g']], 3: [None, ['i', 'g'], ['r']]}
    for p in c28.PLANS:
        for deb in (None, 'sdss', 'scarlet'):
            for cn in c28.CEN:
                for mf, orm in itertools.product(('no', 'zero', 'some'), (0, 1, 3)):
                    for nb in (1, 2, 3) if th else ((1, 3) if orm == 1 else (2,)):
                        add(plan=p, deblender=deb, cen=c28.CEN[cn], mfrac=mf, ormasks=orm, nb=nb)
    for nb in (1, 2, 3):
        for sh in shears[nb]:
            for w in ('std', 'rot', 'curved'):
                for bv in (0, 1):
                    add(nb=nb, shear=sh, wcs=w, badvar=bv)
            for f in range(nb):
                for p in ('two', 'none'):
                    add(nb=nb, shear=sh, fail=f, plan=p)
    for nb, shs in ((4, [None, ['z']]), (5, [None, ['y', 'r']]), (6, [None, ['u', 'g', 'z']])):
        for sh in shs:
            for deb in ('sdss', 'scarlet'):
                add(nb=nb, shear=sh, deblender=deb, mfrac='some', ormasks=3)
                for f in range(nb):
                    add(nb=nb, shear=sh, deblender=deb, fail=f, plan='two')
    for size in (None, 5, 11, 25):
        for fw in (None, 1.2):
            for tv in (None, 3.25, 8.0):
                for sky in (None, 0, 1):
                    for deb in (None, 'scarlet'):
                        for nb in (1, 2):
                            add(stamp_size=size, fwhm=fw, thresh=tv, sky=sky, deblender=deb, nb=nb,
                                plan='blend')
    bad = [{'name': n, 'config': c} for n, c in (
        ('unknown key', {'stamp': 3}), ('unknown pgauss key', {'pgauss': {'size': 2.0}}),
        ('unknown detect key', {'detect': {'threshold': 3.0}}),
        ('unknown shear band', {'shear_bands': ['g', 'Y']}),
        ('only unknown shear bands', {'shear_bands': ['Y']}))]
    return [Space('runs', cases, run), Space('refused', bad, run_bad)]
