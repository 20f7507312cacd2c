"""C15: coadding the shear bands of one object."""
import itertools
import numpy as np
import ngmix
from mc.core import Space, Out
from mc import obsmodel as om
from metadetect import procflags as pf
from metadetect.fitting import make_coadd_obs

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('every assignment of band states (weight maps, missing optional maps, different shape, '
        'coordinates, psf) to up to three bands (menus of up to six) x every '
        'ordered choice of shear bands, existing '
        'or not; oracle: independent inverse variance average; non-trivial: more than one band')
ASSUMPTIONS = ['non negative weights', 'one epoch per band']
DIMS = (5, 5)


def band(kind, i):
    dims = DIMS
    w = np.full(dims, 2.0 + 3*i)
    r, c = np.mgrid[:dims[0], :dims[1]]
    kw = {}
    if kind == 'holes':
        w[i % 5, i // 5] = 0
        w[4, 4] = 0
    elif kind == 'varied':
        w = w*(1 + r*5 + c)
    elif kind == 'zero':
        w[:] = 0
    elif kind == 'left':
        w[:, 2:] = 0
    elif kind == 'right':
        w[:, :3] = 0
    elif kind == 'shape':
        dims = (6, 6)
        w = np.full(dims, 2.0)
    if kind == 'nomfrac':
        kw['mfrac'] = False
    if kind == 'noormask':
        kw['ormask'] = False
    if kind == 'nopsf':
        kw['psf'] = False
    if kind == 'scale':
        kw['scale'] = 0.3
    o = om.make_obs(dims, i, weight=w, **kw)
    o.ignore_zero_weight = bool(np.any(w > 0))
    if kind == 'nonoise':
        o.set_noise(None)
    if kind == 'nobmask':
        o.set_bmask(None)
    if kind == 'origin':
        o.jacobian = ngmix.DiagonalJacobian(row=1.5, col=2, scale=0.25)
    if o.has_psf():
        p = o.psf
        if kind == 'psfshape':
            p = ngmix.Observation(np.ones((5, 5)), jacobian=p.jacobian)
        elif kind == 'psfjac':
            p = ngmix.Observation(p.image, jacobian=ngmix.DiagonalJacobian(row=1, col=1,
                                                                         scale=0.26))
        else:
            im = np.ones((3, 3))
            im[1, 1] = 5.0 + i
            p = ngmix.Observation(im, jacobian=p.jacobian, meta={'pb': i, 'psf%d' % i: 1})
        o.set_psf(p)
    o.meta['own%d' % i] = i
    if o.has_bmask():
        # bits from the whole range
        o.bmask = o.bmask | (np.int32(1 << (29 - i))*(o.image > 10).astype('i4'))
    return o


OPT = {'nomfrac': 'mfrac', 'noormask': 'ormask', 'nonoise': 'noise', 'nobmask': 'bmask'}
GEO = ('shape', 'scale', 'origin', 'psfshape', 'psfjac', 'nopsf')


def run(case):
    kinds = case['kinds']
    obs = [band(k, i) for i, k in enumerate(kinds)]
    before = [om.snap(o) for o in obs]
    pmeta = [repr(o.psf.meta) if o.has_psf() else None for o in obs]
    mb = ngmix.MultiBandObsList(meta={'mb': 1})
    for i, o in enumerate(obs):
        ol = ngmix.ObsList(meta={'ol': i})
        ol.append(o)
        mb.append(ol)
    sh = case['shear']
    cobs, flags = make_coadd_obs(mb, **({} if sh is None else {'shear_bands': list(sh)}))
    nb = len(kinds)
    out = Out(trivial=nb == 1)
    out.expect([repr(o.psf.meta) if o.has_psf() else None for o in obs] == pmeta and
               dict(mb.meta) == {'mb': 1} and
               [dict(ol.meta) for ol in mb] == [{'ol': i} for i in range(nb)], 'meta-modified',
               lambda: 'meta data of the inputs became %s %s' % (mb.meta, [ol.meta for ol in mb]))
    use = list(range(nb)) if sh is None else list(sh)
    for o, b in zip(obs, before):
        a = om.snap(o)
        out.expect(all(np.array_equal(a[k], b[k]) for k in om.FIELDS if k in b) and
                   a['jac'] == b['jac'] and a['meta'] == b['meta'] and
                   np.array_equal(a['psf'], b['psf']), 'input-modified', 'inputs modified')
    out.outcome = (flags, None if cobs is None else round(float(cobs.image.sum()), 9))
    out.expect((cobs is None) == (flags != 0), 'none-iff-flags', 'flags %d obs %s' % (flags, cobs))
    if any(s >= nb for s in use):
        out.expect(flags == pf.INCONSISTENT_BANDS, 'no-such-band',
                   'a band that does not exist was accepted, flags %d' % flags)
        return out
    if len(use) == 1:
        out.expect(cobs is obs[use[0]] or cobs is not None and
                   np.array_equal(cobs.image, obs[use[0]].image), 'single',
                   'single band: flags %d' % flags)
        return out
    ks = [kinds[s] for s in use]
    geo = [k if k in GEO else None for k in ks]
    if 'nopsf' in geo or len(set(geo)) > 1:
        out.expect(flags == pf.INCONSISTENT_BANDS, 'geometry', 'incompatible bands %s gave '
                   'flags %d' % (ks, flags))
        return out
    if 'zero' in ks:
        out.expect(flags == pf.ZERO_WEIGHTS, 'zero', 'zero weight band gave flags %d' % flags)
        return out
    wt = np.array([np.median(obs[s].weight[obs[s].weight > 0]) for s in use])
    wt = wt/wt.sum()
    with np.errstate(all='ignore'):
        W = 1/sum(w**2/obs[s].weight for w, s in zip(wt, use))
    good = np.all([obs[s].weight > 0 for s in use], axis=0)
    W = np.where(good, W, 0.0)
    opt_bad = any(0 < sum(k == o for k in ks) < len(ks) for o in OPT)
    if not good.any():
        out.expect(flags & pf.ZERO_WEIGHTS, 'disjoint', 'no common pixel gave flags %d' % flags)
        return out
    if opt_bad:
        out.expect(flags == pf.INCONSISTENT_BANDS, 'optional', 'a map missing in some bands gave '
                   'flags %d' % flags)
        return out
    if not out.expect(flags == 0, 'flags', 'flags %d for %s' % (flags, ks)):
        return out
    eq = lambda a, b: np.allclose(a, b, rtol=1e-10, atol=1e-12)  # noqa
    out.expect(eq(cobs.image, sum(w*obs[s].image for w, s in zip(wt, use))), 'image', 'image')
    out.expect(eq(cobs.weight, W), 'weight', lambda: 'weight\n%s\nexpected\n%s' % (cobs.weight, W))
    for f in ('noise', 'mfrac'):
        has = all(getattr(obs[s], 'has_' + f)() for s in use)
        out.expect(getattr(cobs, 'has_' + f)() == has, f + '-presence', f)
        if has:
            out.expect(eq(getattr(cobs, f), sum(w*getattr(obs[s], f) for w, s in zip(wt, use))),
                       f, '%s differs' % f)
    for f in ('bmask', 'ormask'):
        has = all(getattr(obs[s], 'has_' + f)() for s in use)
        out.expect(getattr(cobs, 'has_' + f)() == has, f + '-presence', f)
        if has:
            m = np.zeros(cobs.image.shape, dtype='i4')
            for s in use:
                m |= getattr(obs[s], f)
            out.expect(np.array_equal(getattr(cobs, f), m), f, '%s differs' % f)
    out.expect(eq(cobs.psf.image, sum(w*obs[s].psf.image for w, s in zip(wt, use))), 'psf', 'psf')
    out.expect(np.all(np.isfinite(cobs.psf.weight)) and np.all(cobs.psf.weight > 0),
               'psf-weight', 'psf weight')
    out.expect(cobs.jacobian == obs[use[0]].jacobian and
               cobs.psf.jacobian == obs[use[0]].psf.jacobian, 'jacobian', 'jacobian')
    out.expect(cobs.meta.get('mb') == 1 and all('own%d' % s in cobs.meta for s in use) and
               not any('own%d' % s in cobs.meta for s in range(nb) if s not in use), 'meta',
               'meta data %s' % cobs.meta)
    # the result is not wired to the inputs
    with cobs.writeable():
        cobs.image[:, :] = -5
        cobs.weight[:, :] = 1
    out.expect(all(np.array_equal(om.snap(o)['image'], b['image'])
                   for o, b in zip(obs, before)), 'aliased', 'the coadd aliases an input')
    # order does not matter
    if sh is not None:
        c2, f2 = make_coadd_obs(mb, shear_bands=sorted(sh))
        c1, f1 = make_coadd_obs(mb, shear_bands=list(sh))
        out.expect(f1 == f2 == 0 and eq(c1.image, c2.image) and eq(c1.weight, c2.weight) and
                   np.array_equal(c1.bmask if c1.has_bmask() else 0,
                                  c2.bmask if c2.has_bmask() else 0), 'order', 'order matters')
    return out


def spaces(tier):
    th = tier == 'thorough'
    kinds = ['flat', 'holes', 'varied', 'zero', 'left', 'right'] + list(OPT) + list(GEO)
    cases = []
    for nb in (1, 2, 3):
        ks = kinds if nb < 3 or th else ['flat', 'holes', 'varied', 'zero', 'left', 'right',
                                         'nomfrac', 'nobmask', 'scale', 'nopsf']
        shears = [None] + [list(p) for n in range(1, nb+1)
                           for p in itertools.permutations(range(nb), n)]
        shears += [[nb], [0, nb], [nb+3, 0]] + ([[0, 1, nb]] if nb > 1 else [])
        for k in itertools.product(ks, repeat=nb):
            for sh in shears:
                cases.append(dict(kinds=list(k), shear=sh))
    many = []
    for nb in (4, 5, 6):
        shears = [None, [nb-1], [nb-1, 0], list(range(nb))[::-1], [3, 1], list(range(1, nb)),
                  [nb], [0, nb-1, nb]]
        for first, stride in itertools.product(range(len(kinds)), (0, 1, 3)):
            k = [kinds[(first + stride*i) % len(kinds)] for i in range(nb)]
            for sh in shears:
                many.append(dict(kinds=k, shear=sh))
        for pos, k in itertools.product(range(nb), kinds):
            t = ['flat']*nb
            t[pos] = k
            many.append(dict(kinds=t, shear=None))
    return [Space('coadds', cases, run), Space('many-bands', many, run)]
