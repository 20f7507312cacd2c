"""C36: where the pixel grid starts and how it lies on the sky does not matter."""
import contextlib
import io
import itertools
import warnings
import numpy as np
import ngmix
from ngmix import env
import lsst.afw.image as afw_image
from lsst.afw.geom import SkyWcs
from lsst.meas.algorithms import FuncPsf
from mc.core import Space, Out
from mc import lsstmodel as lm
from mc import mdmodel as mm
from mc import meta
from metadetect.metadetect import do_metadetect
from metadetect.masking import apply_foreground_masking_corrections, apply_apodization_corrections
from metadetect.lsst.masking import (apply_apodized_bright_masks_mbexp,
                                     apply_apodized_edge_masks_mbexp)
from metadetect.lsst.metadetect import run_metadetect
from metadetect.lsst.photometry import run_photometry
from . import c28

PROPERTY = 'C36'
LEVEL = 'exploration'
RULE = ('every run of the menu on the original pixel grid and on grids with exchanged axes and '
        'with every other origin; sky quantities are compared, pixel positions after the same '
        'transformation; non-trivial: another grid and there are rows')
ASSUMPTIONS = ['detections are the same objects in the same order on both grids; quantities agree '
               'to 1e-7 (core) or single precision (LSST), since sums are taken in another order']
CRVAL = np.array([200.0, 0.1])
ROWS = [dict(x=5.2, y=4.3, iso_radius=1.0), dict(x=12.4, y=8.8, iso_radius=2.0),
        dict(x=0.3, y=17.1, iso_radius=1.0), dict(x=2.9, y=13.2, iso_radius=3.0, a=2.0, b=1.5),
        dict(x=15.0, y=0.6, iso_radius=1.0)]
SWAP = {'x': 'y', 'xmin': 'ymin', 'xmax': 'ymax'}
SWAP.update({v: k for k, v in list(SWAP.items())})


# maps of the sky: matrix for (u, v), signs of the two components of shapes
SKY = {None: ([[1, 0], [0, 1]], (1, 1)), 'mirror': ([[-1, 0], [0, 1]], (1, -1)),
       'quarter': ([[0, -1], [1, 0]], (-1, -1))}


def turn_type(t, grid):
    """the type of the same shear on the other sky"""
    s = SKY[grid.get('sky')][1]
    if t[:1] in '12' and s[int(t[0]) - 1] < 0:
        return t[0] + {'p': 'm', 'm': 'p'}[t[1]] + t[2:]
    return t


def turn_jac(j, grid):
    r, c = j.get_cen()
    m = SKY[grid.get('sky')][0]
    du, dv = (j.dudrow, j.dudcol), (j.dvdrow, j.dvdcol)
    du, dv = ([a[0]*x + a[1]*y for x, y in zip(du, dv)] for a in m)
    j = ngmix.Jacobian(row=r + grid.get('cen', (0, 0))[0], col=c + grid.get('cen', (0, 0))[1],
                       dudrow=du[0], dudcol=du[1], dvdrow=dv[0], dvdcol=dv[1])
    r, c = j.get_cen()
    if grid.get('swap'):
        return ngmix.Jacobian(row=c, col=r, dudrow=j.dudcol, dudcol=j.dudrow,
                              dvdrow=j.dvdcol, dvdcol=j.dvdrow)
    return ngmix.Jacobian(row=r, col=c, dudrow=j.dudrow, dudcol=j.dudcol, dvdrow=j.dvdrow,
                          dvdcol=j.dvdcol)


def turn_obs(o, grid):
    def f(a):
        return np.ascontiguousarray(a.T if grid.get('swap') else a)
    kw = {n: f(np.array(getattr(o, n))) for n in ('bmask', 'ormask', 'noise', 'mfrac')
          if getattr(o, '_' + n, None) is not None}
    p = o.psf
    pg = {k: v for k, v in grid.items() if k != 'cen'}
    kw['psf'] = ngmix.Observation(f(p.image), weight=f(p.weight), jacobian=turn_jac(p.jacobian, pg))
    return ngmix.Observation(f(o.image), weight=f(o.weight), jacobian=turn_jac(o.jacobian, grid),
                             meta=dict(o.meta), ignore_zero_weight=bool(np.any(o.weight > 0)), **kw)


def turn_mb(mb, grid):
    new = ngmix.MultiBandObsList()
    for ol in mb:
        n = ngmix.ObsList()
        for o in ol:
            n.append(turn_obs(o, grid))
        new.append(n)
    return new


def answer(idx, grid, dims):
    import sxdes
    rows = []
    for i in idx:
        r = dict(ROWS[i])
        r.setdefault('xmin', int(r['x']) - 1)
        r.setdefault('xmax', int(r['x']) + 2)
        r.setdefault('ymin', int(r['y']) - 1)
        r.setdefault('ymax', int(r['y']) + 1)
        if grid.get('swap'):
            r = {SWAP.get(k, k): v for k, v in r.items()}
        rows.append(r)
    seg = np.zeros(dims, dtype='i4')
    for k, i in enumerate(idx):
        seg[min(dims[0]-1, int(ROWS[i]['y']+0.5)), min(dims[1]-1, int(ROWS[i]['x']+0.5))] = k+1
    return sxdes.make_objs(rows), np.ascontiguousarray(seg.T) if grid.get('swap') else seg


def plain(odict):
    """the same images for all types"""
    first = odict['noshear']
    for mb in odict.values():
        for ol, fl in zip(mb, first):
            for o, f in zip(ol, fl):
                o.set_image(f.image)
    return odict


def core(case, grid):
    cfg = {'meds': dict(mm.MEDS), 'bmask_flags': 0, 'nodet_flags': case.get('nodet', 0),
           'metacal': {'psf': 'gauss', 'types': [turn_type(t, grid) for t in
                                                 ('noshear', '1p', '2m')]}}
    cfg.update(case.get('cfg', {}))
    cfg.update(mm.deep(meta.FITS[case['fit']]))
    mb = mm.make_mbobs(meta.DIMS, [meta.STATES[s] for s in case['bands']], flip=case.get('rot', 0))
    mb = turn_mb(mb, grid)

    def handler(kind, info):
        if kind == 'detect':
            return answer(case['idx'], grid, meta.DIMS)
        if kind == 'metacal':
            return plain
    with env.use(handler):
        return do_metadetect(cfg, mb, np.random.RandomState(2), shear_band_combs=case['shear'],
                             det_band_combs=case['det'])


def turn_exp(e, grid):
    dx, dy = grid.get('shift', (0, 0))
    swap = grid.get('swap')
    x0, y0 = e.getXY0()
    w = e.getWcs()
    cr, cd, q = w.crpix, w.cd, w.q
    f0 = e.getPsf().f
    if swap:
        x0, y0 = y0, x0
        cr, cd, q = cr[::-1], cd[:, ::-1], -1j*np.conj(q)

        def f(x, y):
            return np.ascontiguousarray(f0(y - dy, x - dx).T)
    else:
        def f(x, y):
            return f0(x - dx, y - dy)

    cd = np.array(SKY[grid.get('sky')][0]) @ cd

    def t(a):
        return a.T if swap else a
    return lm.exposure(t(e.image.array).shape, e.getFilter().bandLabel, (x0 + dx, y0 + dy),
                       image=t(e.image.array), var=t(e.variance.array), mask=t(e.mask.array),
                       psf=FuncPsf(f), w=SkyWcs((cr[0] + dx, cr[1] + dy), w.crval, cd, q))


def turn_pt(p, grid):
    dx, dy = grid.get('shift', (0, 0))
    x, y = p[::-1] if grid.get('swap') else p
    return (x + dx, y + dy)


def lsst(case, grid):
    afw_image._reset_planes()
    c = dict(c28.BASE, **case)
    if c['types']:
        c['types'] = [turn_type(t, grid) for t in c['types']]
    mb, nmb, mf, orm = c28.build(c)
    mb, nmb = (lm.mbexp_of([turn_exp(e, grid) for e in m.singles]) for m in (mb, nmb))
    if mf is not None:
        mf = lm.mbexp_of([turn_exp(e, grid) for e in mf.singles])
    if orm is not None and grid.get('swap'):
        orm = [np.ascontiguousarray(o.T) for o in orm]
    plan = [{n: [turn_pt(p, grid) for p in o[n]] for n in ('peaks', 'pix')}
            for o in c28.plan_answer(case['plan'])]

    base = meta.lsst_handler(None)

    def handler(kind, info):
        if kind == 'lsst.detect':
            return plan
        if kind == 'lsst.centroid':
            k = info['source'].getFootprint().getPeaks()[0]
            d = (0.25, -0.375)
            d = d[::-1] if grid.get('swap') else d
            return (k.getIx() + d[0], k.getIy() + d[1])
        return base(kind, info)
    config = c28.make_config(c)
    rng = np.random.RandomState(4)
    with env.use(handler), contextlib.redirect_stdout(io.StringIO()):
        if case['run'] == 'mdet':
            return run_metadetect(mb, nmb, rng, mf, orm, config)
        config.pop('metacal', None)
        return {'all': run_photometry(mb, rng, mf, orm, config)}


def partner(name):
    """the name of the same column on the grid with exchanged axes"""
    for a, b in (('row', 'col'), ('col', 'row')):
        parts = name.split('_')
        n = '_'.join(p.replace(a, b) if p.startswith(a) else p for p in parts)
        if n != name:
            return n
    return name


def run(case):
    fn = lsst if 'run' in case else core
    ls = 'run' in case
    grid = case['grid']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ref = fn(case, {})
        got = fn(case, grid)
    out = Out(steps=2, trivial=True)
    ref = {turn_type(t, grid) if t != 'all' else t: v for t, v in ref.items()}
    sky, sg = SKY[grid.get('sky')]
    if not out.expect(set(ref) == set(got), 'keys', lambda: '%s and %s' % (list(ref), list(got))):
        return out
    rows = []
    dx, dy = grid.get('shift', (0, 0))
    for t in ref:
        a, b = ref[t], got[t]
        n, m = (None if x is None else len(x) for x in (a, b))
        rows.append(n)
        if not out.expect(n == m, 'rows', '%s: %s rows, %s on the other grid' % (t, n, m)):
            continue
        if not n:
            continue
        out.trivial = False
        out.expect(set(a.dtype.names) == set(b.dtype.names), 'columns', 'other columns')
        for c in a.dtype.names:
            d = partner(c) if grid.get('swap') else c
            x, y = np.array(a[c]), np.array(b[d])
            if ls and d in ('row', 'row0'):
                y = y - dy
            if ls and d in ('col', 'col0'):
                y = y - dx
            if 'sky' in grid:
                if c.endswith('_g'):
                    x = x*np.array(sg)
                elif c.endswith('_g_cov'):
                    x = x*np.outer(sg, sg)
                elif c in ('ra', 'dec'):
                    x = np.array([sky[c == 'dec'] @ (np.array([r['ra'], r['dec']]) - CRVAL)
                                  for r in a]) + CRVAL[int(c == 'dec')]
            if x.dtype.kind != 'f':
                ok = np.array_equal(x, y)
            elif ls:
                ok = np.allclose(x, y, rtol=5e-4, atol=3e-5, equal_nan=True)
            else:
                ok = np.allclose(x, y, rtol=1e-6, atol=3e-6, equal_nan=True)
            out.expect(ok, 'column:' + c, lambda: '%s %s: %s expected %s'
                       % (t, d, y.tolist(), x.tolist()))
    out.outcome = (case.get('fit'), case.get('run'), tuple(rows))
    return out


def mask_core(case, grid):
    dims = case['dims']
    mb = mm.make_mbobs(tuple(dims), [meta.STATES[s] for s in case['bands']])
    for ol in mb:
        for o in ol:
            r, c = np.mgrid[:dims[0], :dims[1]]
            o.set_image(20.0 + 1.5*r - 2.25*c)
            o.set_noise(2.0 - 0.5*r + 0.75*c)
    mb = turn_mb(mb, grid)
    x, y, rad = np.array(case['objs'], dtype='f8').reshape(-1, 3).T.copy()
    if grid.get('swap'):
        x, y = y, x
    if case['method'] == 'edge':
        apply_apodization_corrections(mbobs=mb, ap_rad=0.5, mask_bit_val=2**20)
    else:
        apply_foreground_masking_corrections(
            mbobs=mb, xm=x, ym=y, rm=rad, method=case['method'], mask_expand_rad=1.0,
            mask_bit_val=2**20, expand_mask_bit_val=2**21, interp_bit_val=2**22,
            symmetrize=case['symm'], ap_rad=0.5, iso_buff=1, rng=np.random.RandomState(9))
    return [turn_obs(o, grid) for ol in mb for o in ol]


def mask_lsst(case, grid):
    afw_image._reset_planes()
    w = lm.wcs_menu(case['wcs'], -4, 7)
    psf = lm.pos_psf(7, 1.3, 0.002)
    mb = lm.mbexp_of([turn_exp(lm.exposure(tuple(case['dims']), b, (-4, 7), w=w, psf=psf), grid)
                      for b in 'gr'])
    info = np.zeros(len(case['objs']), dtype=[('ra', 'f8'), ('dec', 'f8'), ('radius_pixels', 'f8')])
    for i, (x, y, r) in enumerate(case['objs']):
        ra, dec = w._p2s(x - 4, y + 7)
        info[i] = (ra, dec, r)
    if case['method'] == 'bright':
        apply_apodized_bright_masks_mbexp(mbexp=mb, bright_info=info)
    else:
        apply_apodized_edge_masks_mbexp(mbexp=mb)
    return mb.singles


def run_masks(case):
    grid = case['grid']
    out = Out(steps=2, outcome=(case['method'], len(case['objs'])))
    if 'wcs' in case:
        for a, b in zip(mask_lsst(case, {}), mask_lsst(case, grid)):
            for n in ('image', 'variance', 'mask'):
                x, y = getattr(a, n).array, getattr(b, n).array
                y = y.T if grid.get('swap') else y
                out.expect(np.array_equal(np.isfinite(x), np.isfinite(y)) and
                           np.allclose(x, y, rtol=1e-5, atol=1e-5), 'mask-' + n,
                           '%s differs on the other grid' % n)
        return out
    for a, b in zip(mask_core(case, {}), mask_core(case, grid)):
        for n in ('image', 'noise', 'weight', 'bmask', 'ormask', 'mfrac'):
            if getattr(a, '_' + n, None) is None:
                continue
            x, y = np.array(getattr(a, n)), np.array(getattr(b, n))
            y = y if x.shape == y.shape else y.T
            out.expect(np.allclose(x, y, rtol=1e-4, atol=1e-4 if n in ('image', 'noise') else 1e-7),
                       'mask-' + n, '%s differs on the other grid' % n)
    return out


def warmup():
    run({'bands': ['ok'], 'fit': 'wmom', 'shear': None, 'det': None, 'idx': [0, 1], 'grid':
         {'swap': 1}})


def spaces(tier):
    th = tier == 'thorough'
    core_, ls, masks = [], [], []
    cfgs = [{}, {'mask_region': 3, 'ormask_region': 2, 'mfrac_fwhm': 0.7},
            {'meds': dict(mm.MEDS, box_type='sigma_size', sigma_fac=2.0, min_box_size=4)}]
    for bs, s, d in ((['ok'], None, None), (['holes', 'ok'], [[1], [0, 1]], [[0], [1]]),
                     (['nomf', 'ok'], [[0, 1]], [[0, 1]])):
        for fit in meta.FITS:
            for rot in (0, 1):
                for k, cfg in enumerate(cfgs):
                    for idx in ([0, 1], [1, 2, 4], [3, 0]) + (([4, 3, 2, 1, 0], [2]) if th else ()):
                      for g in ({'swap': 1}, {'cen': (3.5, -20)}, {'sky': 'mirror'},
                                {'sky': 'quarter', 'swap': 1}):
                        if not th and (k or len(g) == 1 and not 'swap' in g) and fit not in ('wmom', 'am'):
                            continue
                        core_.append(dict(bands=bs, fit=fit, shear=s, det=d, rot=rot, cfg=cfg,
                                          nodet=512*(k == 1), idx=idx, grid=g))
    grids = [{'swap': 1}, {'shift': (12, -300)}, {'sky': 'mirror', 'shift': (1000, 77)},
             {'sky': 'quarter'}, {'swap': 1, 'shift': (5, -9), 'sky': 'mirror'}]
    if th:
        grids += [{'swap': 1, 'sky': 'quarter'}, {'sky': 'mirror'}]
    for run_ in ('mdet', 'phot'):
        for nb, shear in ((1, None), (2, None), (3, ['i', 'g'])):
            for deb in ('sdss', 'scarlet'):
                for w in ('std', 'rot', 'curved'):
                    for plan in ('two', 'blend', 'edges'):
                        for size in (11, None):
                            for g in grids:
                                if not th and (nb == 2 or (plan == 'two') or (size is None) !=
                                               (w == 'std')):
                                    continue
                                ls.append(dict(run=run_, nb=nb, shear=shear, deblender=deb, wcs=w,
                                               plan=plan, types=['noshear', '2p'] if nb > 1 else
                                               ['1m'], stamp_size=size, grid=g, mfrac='some',
                                               badvar=1, sky=int(nb == 3)))
    objs = [(5.3, 4.6, 3.0), (12.2, 11.7, 3.6), (0.4, 16.2, 2.2), (15.1, -1.3, 2.7)]
    for n in range(0, 4):
        for sel in itertools.combinations(objs, n):
            for dims in ([18, 16], [16, 18], [17, 21]):
                for m in ('interp', 'apodize', 'edge'):
                    if (n == 0) != (m == 'edge'):
                        continue
                    for symm in (0, 1):
                        masks.append(dict(dims=dims, objs=sel, method=m, symm=symm and
                                          dims[0] == dims[1], bands=['ok', 'nomf'],
                                          grid={'swap': 1}))
    grids.append({'swap': 1, 'shift': (40, 17)})
    for dims in ([44, 41], [40, 46]):
        for w in ('std', 'rot', 'curved'):
            for g in grids:
                if 'sky' in g:
                    continue
                for sel in ([], objs[:1], objs[1:3], objs):
                    masks.append(dict(dims=dims, objs=[(x*2 + 0.0371, y*2 - 0.0137, r) for x, y, r in sel],
                                      method='bright', wcs=w, grid=g))
                masks.append(dict(dims=dims, objs=[], method='lsst-edge', wcs=w, grid=g))
    return [Space('runs', core_, run), Space('lsst-runs', ls, run), Space('masking', masks, run_masks)]
