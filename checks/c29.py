"""C29: masked fraction, or-mask and original psf of multi-band exposures."""
import itertools
import ngmix
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from ngmix import env
from ngmix.moments import make_mom_result
from metadetect import procflags
from metadetect.lsst import metadetect as md
from metadetect.lsst.measure import get_output_struct
import lsst.afw.image as afw_image

PROPERTY = 'C29'
LEVEL = 'fault_enumeration'
RULE = ('every position of a sub-pixel grid in and around the image x every single masked pixel '
        '(the result is linear in the image), every list of or-masks, every assignment of '
        'variance states to bands, and every assignment of psf fit outcomes to bands and tries')
ASSUMPTIONS = ['the fit of the psf is answered by the environment; exposures are stand-ins']
JACS = {'std': (0.2, 0, 0, 0.2), 'rot': (0.12, -0.16, 0.16, 0.12), 'wide': (0.3, 0.05, -0.02, 0.2)}


def positions(dims, step):
    ny, nx = dims
    far = (-30.0, -4.0, -3.0)
    ys = list(far) + list(np.arange(-2.5, ny + 2, step)) + [ny + 3.0, ny + 40.0]
    xs = list(far) + list(np.arange(-2.5, nx + 2, step)) + [nx + 3.0, nx + 40.0]
    return np.array([(x, y) for y in ys for x in xs])


def run_mfrac(case):
    """linear operator of the weighted mean: all unit images"""
    dims = tuple(case['dims'])
    J = JACS[case['jac']]
    fwhm = case['fwhm']
    jac = ngmix.Jacobian(x=3.0, y=1.0, dudx=J[0], dudy=J[1], dvdx=J[2], dvdy=J[3])
    pos = positions(dims, case['step']) + case.get('shift', 0)
    image = np.zeros(dims)
    if case['pix'] is None:
        image[:, :] = np.arange(dims[0]*dims[1]).reshape(dims) % 7/7.0
    else:
        image[case['pix'] // dims[1], case['pix'] % dims[1]] = 0.75
    keep = image.copy()
    jc = jac.get_cen()
    x, y = pos[:, 0].copy(), pos[:, 1].copy()
    got = md.measure_weighted_mfrac(mfrac=image, x=x, y=y, jac=jac, fwhm=fwhm)
    want = lm.ref_mfrac(image, pos[:, 0], pos[:, 1], J, 1.2 if fwhm is None else fwhm)
    out = Out(outcome=(case['pix'], case['jac']), steps=len(pos))
    out.expect(got.shape == want.shape, 'shape', 'shape %s' % (got.shape,))
    if got.shape == want.shape:
        bad = ~np.isclose(got, want, rtol=1e-6, atol=1e-9)
        out.checked += len(pos)
        if bad.any():
            i = int(np.argmax(bad))
            out.bad('mean', 'at %s: %s expected %s' % (pos[i], got[i], want[i]))
    out.expect(np.array_equal(image, keep) and np.array_equal(x, pos[:, 0])
               and np.array_equal(y, pos[:, 1]) and jac.get_cen() == jc, 'input',
               'the input was changed')
    return out


def rows_at(pos, row0, col0):
    import numpy as np
    from metadetect import fitting
    res = get_output_struct(np.zeros(len(pos), dtype=[('x', 'f8')]))
    res['row0'], res['col0'] = row0, col0
    res['col'] = pos[:, 0] + col0
    res['row'] = pos[:, 1] + row0
    _ = fitting
    return res


def run_add(case):
    """columns of a catalogue"""
    dims, xy0 = tuple(case['dims']), tuple(case['xy0'])
    pos = positions(dims, 0.25 if case['fine'] else 0.5)
    res = rows_at(pos, xy0[1], xy0[0])
    before = res.copy()
    e = lm.exposure(dims, 'r', xy0, w=lm.wcs_menu(case['wcs'], *xy0))
    n = dims[0]*dims[1]
    orm = (1 + np.arange(n)).reshape(dims).astype('i4')
    mf = ((np.arange(n)*5) % 8/8.0).reshape(dims)
    if case['zero']:
        mf[:, :] = 0
    out = Out(outcome=(case['zero'], dims), steps=len(pos))
    md.add_ormask(orm, res)
    md.add_mfrac({'stamp_size': 9}, mf, res, e)
    stats = {'flags': 4, 'navg': 3, 'g1': 0.1, 'g2': -0.2, 'T': 0.5, 'e1': 1.0, 'e2': 2.0}
    md.add_original_psf(stats, res)
    J = lm.jac_at(e.getWcs(), *lm.int_center(e))
    wm = np.zeros(len(pos)) if case['zero'] else lm.ref_mfrac(mf, pos[:, 0], pos[:, 1], J)
    wo = [lm.ref_pixel(orm, *p) for p in pos]
    for name, w in (('mfrac', wm), ('ormask', wo), ('psfrec_flags', 4), ('psfrec_navg', 3),
                    ('psfrec_g', [0.1, -0.2]), ('psfrec_T', 0.5)):
        w = np.broadcast_to(w, res[name].shape)
        bad = ~np.isclose(res[name], w, rtol=1e-4, atol=1e-6)
        out.checked += 1
        if bad.any():
            i = int(np.argwhere(bad)[0][0])
            out.bad(name, 'at %s: %s is %s, expected %s' % (pos[i], name, res[name][i], w[i]))
    for name in res.dtype.names:
        if name not in ('mfrac', 'ormask') and 'psfrec' not in name:
            out.expect(np.array_equal(res[name], before[name], equal_nan=True), 'others',
                       '%s changed' % name)
    return out


def run_orm(case):
    """combination of or-masks"""
    dims = (3, 4)
    mb = lm.mbexp_of([lm.exposure(dims, b) for b in 'gr'])
    out = Out(outcome=str(case['bits']))
    if case['bits'] is None:
        got = md.combine_ormasks(mb, None)
        out.expect(got.shape == dims and not got.any() and got.dtype.kind == 'i', 'none',
                   'no masks give %s' % (got,))
        return out
    pat = np.arange(12).reshape(dims)
    masks = [((pat % (i + 2) == 0)*b).astype('i4') for i, b in enumerate(case['bits'])]
    keep = [m.copy() for m in masks]
    want = np.zeros(dims, 'i4')
    for m in masks:
        want |= m
    got = md.combine_ormasks(mb, masks)
    out.expect(np.array_equal(got, want), 'or', lambda: 'got %s expected %s' % (got, want))
    got[:, :] = 99
    out.expect(all(np.array_equal(a, b) for a, b in zip(masks, keep)), 'input',
               'the masks are changed or shared with the result')
    return out


STATES = {'flat': lambda v: None,
          'slope': lambda v: v.__setitem__((slice(None), slice(0, 3)), 9.0),
          'part': lambda v: (v.__setitem__((0, slice(None)), np.inf),
                             v.__setitem__((1, slice(None)), 0),
                             v.__setitem__((2, 0), np.nan), v.__setitem__((2, 1), -5.0)),
          'mostly': lambda v: v.__setitem__((slice(1, None), slice(None)), np.inf)}


def run_weights(case):
    """mean of the masked fraction over the bands"""
    dims = (6, 5)
    es, ms = [], []
    for i, s in enumerate(case['states']):
        b = lm.BANDS[i]
        e = lm.exposure(dims, b, (5, 6))
        e.variance.array[:, :] = (0.5, 2.0, 0.25, 0.7, 0.1, 3.0)[i]*case.get('scale', 1)
        STATES[s](e.variance.array)
        es.append(e)
        ms.append(lm.exposure(dims, b, (5, 6), image=(
            (np.arange(30)*(3 + i)) % (5 + i)/8.0).reshape(dims)))
    mb, mm = lm.mbexp_of(es), lm.mbexp_of(ms)
    before = lm.snaps(mb) + lm.snaps(mm)
    w = np.array(lm.median_weights(mb))
    want = 0
    for a, m in zip(w, ms):
        want = want + a/w.sum()*m.image.array.astype('f8')
    if case['none']:
        want = np.zeros(dims)
    got, wg = md.get_mfrac_mbexp(mb, None if case['none'] else mm)
    out = Out(outcome=tuple(case['states']))
    out.expect(np.allclose(wg, w, rtol=1e-6), 'weights', lambda: 'weights %s expected %s' % (wg, w))
    out.expect(got.shape == dims and np.allclose(got, want, rtol=1e-5, atol=1e-7), 'mean',
               lambda: 'mean %s expected %s' % (got, want))
    out.expect(not any(lm.same(a, b) for a, b in zip(before, lm.snaps(mb) + lm.snaps(mm))),
               'input', 'the input was changed')
    return out


MOM = {'ok0': (0.1, -0.05, 0.4), 'ok1': (-0.2, 0.03, 0.5), 'ok2': (0.0, 0.0, 0.3),
       'ok3': (0.05, 0.1, 0.35), 'ok4': (-0.1, -0.15, 0.6), 'ok5': (0.15, -0.2, 0.45)}


def mom(e1, e2, T, flags=0):
    r = make_mom_result(np.array([0, 0, e1*T, e2*T, T, 1.0]), np.diag(np.ones(6)*1e-6))
    r['flags'] = flags
    return r


def run_psf(case):
    """fits of the original psfs"""
    nb = len(case['bands'])
    afw_image._reset_planes()
    es = []
    for i in range(nb):
        # bands are recognized by the maximum of their psf
        es.append(lm.exposure((7, 8), lm.BANDS[i], (10, 20),
                              psf=lm.const_psf(lm.gauss(5 + 2*i, 1.0 + 0.2*i)),
                              w=lm.wcs_menu('rot', 10, 20)))
    mb = lm.mbexp_of(es)
    before = lm.snaps(mb)
    calls = [0]*nb
    wrong = []

    def handler(kind, info):
        if kind != 'admom':
            return None
        obs = info['obs']
        b = (obs.image.shape[0] - 5)//2
        n = calls[b]
        calls[b] += 1
        im = lm.psf_image(mb.singles[b], lm.int_center(mb.singles[b]))
        J = lm.jac_at(mb.singles[b].getWcs(), *lm.int_center(mb.singles[b]))
        if not (np.allclose(obs.image, im, atol=1e-6) and np.allclose(
                lm.jac_of(obs), J, atol=1e-7) and np.allclose(
                    lm.jac_cen(obs), (im.shape[0] - 1)/2)):
            wrong.append(b)
        a = case['bands'][b]
        if a == 'range':
            return mom(0.9, 0.8, 0.4)
        if a == 'fail' or (a.startswith('late') and n < int(a[4:])):
            return mom(0.6, 0.6, 9.0, flags=8)
        return mom(*MOM['ok%d' % b])
    wgts = case['wgts'][:nb]
    sb = case['shear']
    with env.use(handler):
        got = md.fit_original_psfs_mbexp(mbexp=mb, rng=np.random.RandomState(2), wgts=wgts,
                                         config={'shear_bands': sb})
    idx = [i for i, b in enumerate(mb.bands) if sb is None or b in sb]
    out = Out(outcome=(tuple(case['bands']), tuple(idx)), steps=sum(calls))
    out.expect(not wrong, 'psf', 'fit another psf or coordinates for band %s' % wrong)
    out.expect(not any(lm.same(a, b) for a, b in zip(before, lm.snaps(mb))), 'input',
               'the input was changed')
    vals = {i: (0.9, 0.8, 0.4) if a == 'range' else MOM['ok%d' % i]
            for i, a in enumerate(case['bands'])}
    w = np.array([wgts[i] for i in idx])
    e1, e2, T = [(w*[vals[i][k] for i in idx]).sum()/w.sum() for k in range(3)]
    failed = 'fail' in case['bands'] or np.hypot(e1, e2) >= 1
    if failed:
        out.expect(got['flags'] == procflags.PSF_FAILURE, 'failure-flags',
                   'flags %s for a failed fit' % got['flags'])
        for n in ('e1', 'e2', 'g1', 'g2', 'T'):
            out.expect(got[n] == -9999.0, 'failure-values', '%s is %s for a failed fit' % (
                n, got[n]))
        out.expect(got['navg'] == 0, 'failure-navg', 'navg %s for a failed fit' % got['navg'])
        out.expect(got['perband'] is None, 'failure-perband', 'values per band for a failed fit')
        return out
    n = np.hypot(e1, e2)
    f = np.tanh(0.5*np.arctanh(n))/n if n > 0 else 0.5
    out.expect(got['flags'] == 0 and got['navg'] == len(idx), 'flags', 'flags %s navg %s' % (
        got['flags'], got['navg']))
    for name, v in (('e1', e1), ('e2', e2), ('T', T), ('g1', f*e1), ('g2', f*e2)):
        out.expect(np.isclose(got[name], v, rtol=1e-9, atol=1e-12), name,
                   lambda: '%s is %s expected %s' % (name, got[name], v))
    p = got['perband']
    out.expect(len(p) == nb and all(
        np.allclose((p['e1'][i], p['e2'][i], p['T'][i], p['wgt'][i]), vals[i] + (wgts[i],))
        and bool(p['is_shear_band'][i]) == (i in idx) for i in range(nb)), 'perband',
        lambda: 'values per band %s' % (p,))
    return out


def warmup():
    pass


def spaces(tier):
    th = tier == 'thorough'
    mf = []
    for dims in ((7, 7), (6, 9), (9, 5)) + (((12, 10),) if th else ()):
        for jac in JACS:
            for fwhm in (None, 0.9, 2.0):
                for pix in [None] + list(range(dims[0]*dims[1])):
                    if pix is None or th or (fwhm is None and pix % 2 == 0 and jac != 'wide'):
                        mf.append({'dims': dims, 'jac': jac, 'fwhm': fwhm, 'pix': pix,
                                   'step': 0.5 if pix is None else (0.75 if th else 1.25)})
    add = [{'dims': d, 'xy0': xy, 'wcs': w, 'zero': z, 'fine': f}
           for d in ((6, 9), (9, 5), (4, 4)) for xy in ((0, 0), (-12, 300), (1000, -7))
           for w in ('std', 'rot', 'curved') for z in (0, 1) for f in ((0, 1) if th else (0,))]
    orm = [{'bits': None}] + [{'bits': list(b)} for n in (1, 2, 3, 4)
                              for b in itertools.product((1, 2, 6), repeat=n)]
    wt = [{'states': list(s), 'none': z} for n in (1, 2, 3)
          for s in itertools.product(STATES, repeat=n) for z in (0, 1)]
    # any unit of the data
    wt += [{'states': [a, b], 'none': 0, 'scale': sc} for a in STATES for b in STATES
           for sc in (1e-12, 1e-6, 1e-3, 1e5, 1e10)]
    psf = []
    acts = ('ok', 'late1', 'late3', 'fail', 'range') if th else ('ok', 'late3', 'fail', 'range')
    shears = {1: [None, ['g']], 2: [None, ['r'], ['g'], ['r', 'g']],
              3: [None, ['i', 'g'], ['r'], ['g', 'r'], ['i', 'r', 'g']]}
    for nb in (1, 2, 3):
        for b in itertools.product(acts, repeat=nb):
            for sh in shears[nb]:
                for wg in ([1.0, 1.0, 1.0], [0.5, 4.0, 2.0], [9.0, 0.1, 1.0]):
                    psf.append({'bands': list(b), 'shear': sh, 'wgts': wg})
    six = ['g', 'r', 'i', 'z', 'y', 'u']
    for nb in (4, 6):
        for k in range(nb):
            for a in acts:
                for sh in (None, six[:nb][::-1], [six[k]], [six[nb-1], six[1]]):
                    psf.append({'bands': ['ok']*k + [a] + ['ok']*(nb-k-1), 'shear': sh,
                                'wgts': [1.0, 3.0, 0.5, 2.0, 0.25, 7.0]})
            for s in STATES:
                wt.append({'states': ['flat']*k + [s] + ['slope']*(nb-k-1), 'none': 0})
        orm.append({'bits': [(1, 2, 6, 9, 11, 13)[k] for k in range(nb)]})
    return [Space('mean', mf, run_mfrac), Space('columns', add, run_add),
            Space('ormasks', orm, run_orm), Space('weights', wt, run_weights),
            Space('psfs', psf, run_psf)]
