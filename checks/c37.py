"""C37: data an object is not measured from do not influence it."""
import contextlib
import io
import warnings
import numpy as np
import ngmix
from ngmix import env
import lsst.afw.image as afw_image
from mc.core import Space, Out
from mc import lsstmodel as lm
from mc import mdmodel as mm
from mc import meta
from metadetect.metadetect import do_metadetect
from metadetect.lsst.photometry import run_photometry
from . import c21, c28, c36

PROPERTY = 'C37'
LEVEL = 'exploration'
RULE = ('every pixel of every plane of every band of the images of the menu is changed, one at a '
        'time, and every column of every row of the new result is compared with the result for '
        'the original data; non-trivial: there are rows')
ASSUMPTIONS = ['the detections are given and the sheared images are the observed ones; a changed '
               'pixel leaves medians of weights and variances alone']
BOX = mm.BOX
POSITION = ('sx_row', 'sx_col', 'sx_row_noshear', 'sx_col_noshear', 'shear_bands', 'det_bands')
MASKCOLS = ('bmask', 'bmask_noshear', 'ormask', 'ormask_noshear')
MFCOLS = ('mfrac', 'mfrac_noshear', 'mfrac_img')
BIT = 1 << 20


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == 'f':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def bundle(case):
    mb = mm.make_mbobs(meta.DIMS, [meta.STATES[s] for s in case['bands']], flip=case.get('rot', 0))
    for ol in mb:
        for o in ol:
            with o.writeable():
                # flat weights, so that no pixel changes their median or maximum
                o.weight[:] = np.where(o.weight > 0, o.weight.max(), 0)
    return mb


def change(mb, plane, b, r, c):
    o = mb[b][0]
    with o.writeable():
        if plane == 'image':
            o.image[r, c] += 0.75
        elif plane == 'noise':
            o.noise[r, c] += 0.75
        elif plane == 'weight':
            o.weight[r, c] = 0 if o.weight[r, c] > 0 else o.weight.max()
        elif plane == 'bmask':
            o.bmask[r, c] |= BIT
        elif plane == 'ormask':
            o.ormask[r, c] |= BIT
        elif plane == 'mfrac':
            o.mfrac[r, c] = o.mfrac[r, c] + (0.25 if o.mfrac[r, c] < 0.5 else -0.25)
    if plane == 'psf':
        p = o.psf.image.copy()
        p[r, c] += 0.02
        # set_image needs a psf without derived values
        o.set_psf(ngmix.Observation(p, weight=o.psf.weight, jacobian=o.psf.jacobian,
                                    meta=dict(o.psf.meta)))


def core(case, edit=None, key='main'):
    mb = bundle(case)
    kw = {}
    mbs = {'main': mb}
    if case.get('color'):
        dep = c21.dep_mbobs(mb, 'copy')
        for ol in dep:
            for o in ol:
                o.set_image(o.image*1.25)
        mbs['dep'] = dep
        kw = dict(color_dep_mbobs={'x': dep},
                  color_key_func=lambda f: 'x' if f[0] > case['color'] else None)
    if edit:
        change(mbs[key], *edit)
    cfg = {'meds': dict(mm.MEDS), 'bmask_flags': case.get('bad', 0), 'nodet_flags': 0,
           'metacal': {'psf': 'gauss', 'types': ['noshear', '1p']}}
    cfg.update(case.get('cfg', {}))
    cfg.update(mm.deep(meta.FITS[case['fit']]))

    def handler(kind, info):
        if kind == 'detect':
            return c36.answer(case['idx'], {}, meta.DIMS)
        if kind == 'metacal':
            return c36.plain
    with env.use(handler), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return do_metadetect(cfg, mb, np.random.RandomState(2), shear_band_combs=case['shear'],
                             det_band_combs=case['det'], **kw)


def near(pos, r, c, half):
    return abs(int(np.rint(pos[0])) - r) <= half and abs(int(np.rint(pos[1])) - c) <= half


def in_stamp(row, col, r, c):
    r0 = max(0, int(np.float32(row)) - BOX//2 + 1)
    c0 = max(0, int(np.float32(col)) - BOX//2 + 1)
    return r0 <= r < r0 + BOX and c0 <= c < c0 + BOX


def own(name, b):
    """columns with one entry per band"""
    return 'band_flux' in name


def allowed(case, row, plane, b, r, c, name, key):
    """which entries of this column of this object may depend on that pixel: all, one, or none"""
    shear = [int(s) for s in row['shear_bands']]
    reg = case.get('cfg', {}).get('mask_region', 1)
    oreg = case.get('cfg', {}).get('ormask_region', reg)
    pos = (row['sx_row'], row['sx_col'])
    ns = (row['sx_row_noshear'], row['sx_col_noshear'])
    if key is False:
        # but the color itself is measured from the first band
        color = (plane in ('image', 'weight') and b == 0 and case.get('key') == 'main'
                 and in_stamp(pos[0], pos[1], r, c))
        return 'all' if color else 'none'
    if name in POSITION:
        return 'none'
    if name in MASKCOLS:
        if plane != name.split('_')[0] or b not in shear:
            return 'none'
        h = oreg if plane == 'ormask' else reg
        return 'all' if near(ns if 'noshear' in name else pos, r, c, h if h > 1 else 0) else 'none'
    if name in MFCOLS:
        if plane != 'mfrac' or b not in shear:
            return 'none'
        at = ns if 'noshear' in name else pos
        return 'all' if (name == 'mfrac_img' or near(at, r, c, BOX//2 + 1)
                         or in_stamp(at[0], at[1], r, c)) else 'none'
    if name.startswith('psfrec'):
        return 'all' if plane == 'psf' and b in shear else 'none'
    if plane in ('mfrac', 'ormask'):
        return 'none'
    if plane == 'bmask' and not (case.get('bad', 0) & BIT):
        return 'none'
    if plane != 'psf' and not in_stamp(pos[0], pos[1], r, c):
        return 'none'
    if plane == 'bmask':
        return 'all'
    if b in shear:
        if own(name, b) and case['fit'] in ('wmom', 'reg', 'ksigma'):
            return 'one'
        return 'all'
    return 'one' if own(name, b) else 'none'


def diff(out, case, a, g, plane, b, r, c, t, k, key, loc):
    """columns of one row: a before, g after"""
    changed = []
    for n in a.dtype.names:
        if same(a[n], g[n]):
            continue
        changed.append(n)
        ok = loc(case, a, plane, b, r, c, n, key)
        if ok == 'one' and np.ndim(a[n]) == 1:
            ok = all(i == b or same(a[n][i], g[n][i]) for i in range(len(a[n])))
        out.expect(ok not in ('none', False), 'influence:%s:%s' % (plane, n), lambda:
                   '%s row %d (%s): %s of band %d at row %d, column %d changed %s from %s to %s'
                   % (t, k, [a[x] for x in a.dtype.names if x in ('sx_row', 'sx_col', 'row',
                                                                  'col')],
                      plane, b, r, c, n, a[n], g[n]))
    return changed


COLORS = {}


def color(case):
    """a threshold between the objects, and which data each of them uses"""
    name = {'wmom': 'wmom', 'ksigma': 'ksigma', 'two': 'wmom'}[case['fit']]
    if name not in COLORS:
        d = core(dict(case, color=None, shear=[[0]], det=[[0]]))['noshear']
        f = np.reshape(d[name + '_band_flux'], (len(d), -1))[:, 0]
        cut = float(f.min() + f.max())/2
        COLORS[name] = cut, ['dep' if x > cut else 'main' for x in f]
    case['color'], case['uses'] = COLORS[name]


def run(case):
    out = Out(trivial=True)
    if case.get('color'):
        case = dict(case)
        color(case)
    ref = core(case)
    plane, b, r = case['plane'], case['b'], case['r']
    where = case.get('key', 'main')
    hits = 0
    ncol = meta.DIMS[1] if plane != 'psf' else 7
    for c in range(0, ncol, case.get('every', 1)):
        got = core(case, (plane, b, r, c), where)
        out.steps += 1
        if not out.expect(got is not None and set(got) == set(ref), 'result', 'no result'):
            continue
        for t in ref:
            if ref[t] is None:
                out.expect(got[t] is None, 'rows', 'other rows')
                continue
            if not out.expect(got[t] is not None and len(got[t]) == len(ref[t]), 'rows',
                              'other rows'):
                continue
            out.trivial = False
            nid = len(case['idx'])
            for k, a in enumerate(ref[t]):
                key = None
                if case.get('color'):
                    # the data of one color do not matter for objects of another
                    key = case['uses'][k % nid] == where
                ch = diff(out, case, a, got[t][k], plane, b, r, c, t, k, key, allowed)
                hits += bool(ch)
                if key is not False and (int(a['sx_row'] + 0.5), int(a['sx_col'] + 0.5)) == (r, c):
                    live(out, a, ch, plane, b, case)
    out.outcome = (plane, b, case['fit'], hits > 0)
    return out


def live(out, a, changed, plane, b, case):
    """the pixel an object lies on is used"""
    r, c = a['sx_row'], a['sx_col']
    if plane == 'noise' or plane == 'weight' and case['bands'][b] == 'holes':
        return
    if plane in ('image', 'weight') and not (4 < r < meta.DIMS[0]-5 and 4 < c < meta.DIMS[1]-5):
        # pixels outside the image may hide it
        return
    if plane in ('image', 'weight'):
        out.expect(any('flux' in n for n in changed), 'used:' + plane,
                   'band %d of the central pixel does not matter: %s' % (b, changed))
    shear = [int(s) for s in a['shear_bands']]
    if plane in ('bmask', 'ormask', 'mfrac') and b in shear:
        out.expect(plane in changed, 'used:' + plane,
                   'band %d of the central pixel does not matter: %s' % (b, changed))


def lsst(case, edit=None):
    afw_image._reset_planes()
    c = dict(c28.BASE, **case)
    mb, _, mf, orm = c28.build(c)
    for e in mb.singles:
        e.variance.array[:, :] = np.where(np.isfinite(e.variance.array), 0.01, np.inf)
    if edit:
        plane, b, r, cc = edit
        e = mb.singles[b]
        if plane == 'image':
            e.image.array[r, cc] += 0.75
        elif plane == 'variance':
            e.variance.array[r, cc] *= 3
        elif plane == 'mask':
            e.mask.array[r, cc] |= 1 << 6
        elif plane == 'ormask':
            orm[b][r, cc] |= BIT
        elif plane == 'mfrac':
            mf.singles[b].image.array[r, cc] += 0.25
        elif plane == 'psf':
            exps = list(mb.singles)
            exps[b] = lm.exposure(e.image.array.shape, mb.bands[b], c28.XY0, image=e.image.array,
                                  var=e.variance.array, mask=e.mask.array, w=e.getWcs(),
                                  psf=lm.pos_psf(15, 1.5, 0.002, 0.07, 0.04))
            mb = lm.mbexp_of(exps)
    plan = c28.plan_answer(case['plan'])

    def handler(kind, info):
        if kind == 'lsst.detect':
            return plan
        if kind == 'lsst.centroid':
            k = info['source'].getFootprint().getPeaks()[0]
            return (k.getIx() + 0.25, k.getIy() - 0.375)
        return None
    config = c28.make_config(c)
    config.pop('metacal', None)
    with env.use(handler), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return run_photometry(mb, np.random.RandomState(4), mf, orm, config)


def lsst_allowed(case, row, plane, b, r, c, name, key):
    nb = case['nb']
    bands = lm.BANDS[:nb]
    shear = [i for i in range(nb) if case['shear'] is None or bands[i] in case['shear']]
    r, c = r + c28.XY0[1], c + c28.XY0[0]
    # the stamp is around the peak, which is given by the offsets
    pr, pc = row['row'] - row['row_diff'], row['col'] - row['col_diff']
    h = case['stamp_size']//2
    inside = near((pr, pc), r, c, h) or plane == 'psf'
    if name == 'bmask':
        return 'all' if plane == 'mask' and near((pr, pc), r, c, 0) else 'none'
    if name == 'ormask':
        return 'all' if plane == 'ormask' and near((row['row'], row['col']), r, c, 1) else 'none'
    if name == 'mfrac':
        return 'all' if plane == 'mfrac' and near((row['row'], row['col']), r, c, 13) else 'none'
    if name.startswith('psfrec'):
        return 'all' if plane == 'psf' and b in shear else 'none'
    if plane not in ('image', 'variance', 'psf') or not inside:
        return 'none'
    if not name.startswith(('gauss_', 'pgauss_', 'shear_')):
        return 'none'
    if name.startswith('pgauss_'):
        return 'one' if own(name, b) else 'all'
    if b in shear:
        return 'all'
    return 'one' if own(name, b) else 'none'


def run_lsst(case):
    out = Out(trivial=True)
    ref = lsst(case)
    plane, b, r = case['plane'], case['b'], case['r']
    hits = 0
    for c in range(case['off'], c28.DIMS[1] if plane != 'psf' else case['off'] + 1, case['every']):
        got = lsst(case, (plane, b, r, c))
        out.steps += 1
        if not out.expect(got is not None and len(got) == len(ref), 'rows', 'other rows'):
            continue
        out.trivial = False
        for k, a in enumerate(ref):
            ch = diff(out, case, a, got[k], plane, b, r, c, 'phot', k, None, lsst_allowed)
            hits += bool(ch)
            if a['stamp_flags'] == 0:
                pr, pc = (int(np.rint(a['row'] - a['row_diff'] - c28.XY0[1])),
                          int(np.rint(a['col'] - a['col_diff'] - c28.XY0[0])))
                if (pr, pc) == (r, c):
                    n = {'mask': 'bmask', 'ormask': 'ormask', 'mfrac': 'mfrac'}.get(plane)
                    if n:
                        out.expect(n in ch, 'used:' + plane, 'the central pixel does not matter')
                    elif plane == 'image':
                        shear = lm.BANDS[b] in case['shear']
                        out.expect(('gauss_band_flux' in ch) == shear and
                                   'pgauss_band_flux' in ch,
                                   'used:' + plane, lambda: 'the central pixel of band %d does '
                                   'not matter: %s' % (b, ch))
    out.outcome = (plane, b, case['deblender'], hits > 0)
    return out


def warmup():
    run(dict(bands=['ok'], fit='wmom', shear=None, det=None, idx=[0], plane='image', b=0, r=3))


def spaces(tier):
    th = tier == 'thorough'
    cases, ls = [], []
    cfgs = [dict(), dict(cfg={'mask_region': 3, 'ormask_region': 2, 'mfrac_fwhm': 0.7}, bad=BIT),
            dict(cfg={'meds': dict(mm.MEDS, weight_type='uberseg')})]
    planes = ['image', 'weight', 'bmask', 'ormask', 'mfrac', 'noise', 'psf']
    runs = []
    for fit in meta.FITS:
        for k, extra in enumerate(cfgs):
            for rot in (0, 1):
                if not th and rot != (k == 1):
                    continue
                runs.append(dict(dict(fit=fit, bands=['ok', 'ok', 'holes'], shear=[[1], [2, 0], [0]],
                                      det=[[0], [1], [2]], idx=[1, 2, 4], rot=rot), **extra))
        runs.append(dict(fit=fit, bands=['ok', 'ok'], shear=None, det=None, idx=[3, 0, 1, 2]))
    for fit in ('wmom', 'ksigma', 'two'):
        runs.append(dict(fit=fit, bands=['ok', 'ok'], shear=[[0], [0, 1]], det=[[0], [1]],
                         idx=[0, 1, 3], color=True))
    for k, case in enumerate(runs):
        for plane in planes:
            nr = 7 if plane == 'psf' else meta.DIMS[0]
            for b in range(len(case['bands'])):
                for key in ('main', 'dep') if case.get('color') else ('main',):
                    full = th or k == 0
                    for r in range(0, nr):
                        if full or (r + k + b) % 5 == 1:
                            cases.append(dict(case, plane=plane, b=b, r=r, key=key,
                                              every=1 if full else 4))
    for deb in ('sdss', 'scarlet'):
        for plan in ('two', 'blend', 'edges'):
            for nb, shear in ((2, ['r']), (3, ['i', 'g'])):
                case = dict(deblender=deb, plan=plan, nb=nb, shear=shear, stamp_size=11, ormasks=nb,
                            mfrac='some')
                for b in range(nb):
                    for plane in ('image', 'variance', 'mask', 'ormask', 'mfrac', 'psf'):
                        if plane == 'psf':
                            ls.append(dict(case, plane=plane, b=b, r=0, off=0, every=1))
                            continue
                        for r in range(c28.DIMS[0]):
                            # all pixels, or a grid which holds the peaks
                            if th:
                                ls.append(dict(case, plane=plane, b=b, r=r, off=0, every=1))
                            elif r % 4 == 2 or plane == 'image' and r % 2 == 0:
                                ls.append(dict(case, plane=plane, b=b, r=r, off=r//2 % 3, every=7))
    return [Space('runs', cases, run), Space('lsst-runs', ls, run_lsst)]
