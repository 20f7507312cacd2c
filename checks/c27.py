"""C27: artificially sheared exposures with fixed noise."""
import itertools
import galsim
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from ngmix import env
from ngmix.metacal.metacal import _get_ellip_dilation
from metadetect.lsst import metacal_exposures as mx
import lsst.afw.image as afw_image

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('every list of types (subsets in every order of the menu) x bands x psf statistics, and '
        'every image shape x coordinate system x object shape x shear of the menus; images are '
        'compared with the analytic result for gaussian objects and psfs')
ASSUMPTIONS = ['galsim is the real one; exposures and psfs of the stack are stand-ins, the target '
               'psf without statistics is given by the environment']
STEP = 0.01
SH = {'noshear': (0, 0), '1p': (STEP, 0), '1m': (-STEP, 0), '2p': (0, STEP), '2m': (0, -STEP)}


def gauss_image(dims, cen, flux, cov):
    """cov in pixels, (x, y); cen = (x, y)"""
    y, x = np.mgrid[:dims[0], :dims[1]]
    d = np.stack([x - cen[0], y - cen[1]], axis=-1)
    inv = np.linalg.inv(cov)
    chi = np.einsum('...i,ij,...j', d, inv, d)
    return flux*np.exp(-0.5*chi)/(2*np.pi*np.sqrt(np.linalg.det(cov)))


def shear_matrix(g1, g2):
    return np.array([[1 + g1, g2], [g2, 1 - g1]])/np.sqrt(1 - g1**2 - g2**2)


def psfsig(b):
    return 1.7 + 0.15*b


def build(case, noise=False):
    dims, xy0 = tuple(case['dims']), tuple(case['xy0'])
    cen = np.array([(dims[1] - 1)/2, (dims[0] - 1)/2])
    es, objs = [], []
    w = lm.wcs_menu(case['wcs'], xy0[0] + 5, xy0[1] + 9)
    for b in range(case['nb']):
        if noise:
            c = cen + [2.0 + b, -3.0]
            cov = np.array([[6.5, 0.8], [0.8, 7.5 + b]])
            flux = 20.0
        else:
            c = cen + [case['off'][0], case['off'][1] - b]
            q = case['obj']
            cov = np.array([[9.0 + q, 0.5*q], [0.5*q, 9.0 - q + b]])
            flux = 100.0*(1 + b)
        cov = cov + psfsig(b)**2*np.eye(2)
        im = gauss_image(dims, c, flux, cov)
        p = lm.gauss(23, psfsig(b))
        e = lm.exposure(dims, lm.BANDS[b], xy0, image=im, psf=lm.const_psf(p), w=w,
                        kind=case.get('kind', 'F'))
        e.variance.array[:, :] = 0.5 + b + 0.01*np.arange(dims[1])
        if noise:
            e.variance.array[:, :] *= 7
            e.mask.array[:, :] = 4
        es.append(e)
        objs.append((c, cov - psfsig(b)**2*np.eye(2), flux))
    return lm.mbexp_of(es), objs, cen


def stats_of(nb):
    s = np.zeros(nb, dtype=[('e1', 'f8'), ('e2', 'f8'), ('T', 'f8'), ('wgt', 'f8')])
    for b in range(nb):
        s['e1'][b], s['e2'][b] = 0.02*(b + 1), -0.03
        s['T'][b] = 2*(psfsig(b)*0.2*(1.05 + 0.05*b))**2
    return s


def target_sigma(b, stats, J):
    if stats is None:
        sig = 1.2*psfsig(b)*np.sqrt(abs(J[0]*J[3] - J[1]*J[2]))
    else:
        s = stats[b]
        sig = np.sqrt(s['T']*_get_ellip_dilation(s['e1'], s['e2'], s['T'])/2)
    return sig*(1 + 2*STEP)


def answer(kind, info):
    if kind == 'gauss_target_psf':
        k = 1.0
        sig = np.sqrt(-2*np.log(abs(info['psf'].kValue(k, 0))/info['psf'].flux))/k
        return galsim.Gaussian(sigma=1.2*sig, flux=info['psf'].flux)
    return None


def analytic(obj, cen, J, shear, sigt, dims, sign=1):
    """gaussian sheared on the sky about the image centre, convolved with the target"""
    c, cov, flux = obj
    A = np.array([[J[0], J[1]], [J[2], J[3]]])
    S = np.linalg.inv(A) @ shear_matrix(sign*shear[0], sign*shear[1]) @ A
    t = np.linalg.inv(A) @ (sigt**2*np.eye(2)) @ np.linalg.inv(A).T
    return gauss_image(dims, cen + S @ (c - cen), flux, S @ cov @ S.T + t)


def run(case):
    """against analytic images"""
    out = Out(outcome=(case['nb'], tuple(case['types'] or ()), case['stats']))
    mb, objs, cen = build(case)
    nmb, nobjs, _ = build(case, noise=True)
    before, nbefore = lm.snaps(mb), lm.snaps(nmb)
    nb = case['nb']
    dims = tuple(case['dims'])
    stats = stats_of(nb) if case['stats'] else None
    sstats = None if stats is None else stats.copy()
    types = case['types']
    kw = {} if types is None else {'types': list(types)}
    with env.use(answer):
        if case['which'] == 'mb':
            mdict, nmdict = mx.get_metacal_mbexps_fixnoise(mb, nmb, psf_stats=stats, **kw)
            res = {t: m.singles for t, m in mdict.items()}
            nres = {t: m.singles for t, m in nmdict.items()}
            for t, m in mdict.items():
                out.expect(tuple(m.bands) == tuple(mb.bands), 'bands', 'bands %s' % (m.bands,))
        else:
            mdict, nmdict = mx.get_metacal_exps_fixnoise(
                mb.singles[0], nmb.singles[0],
                psf_stats=None if stats is None else stats[0], **kw)
            res = {t: [m] for t, m in mdict.items()}
            nres = {t: [m] for t, m in nmdict.items()}
            nb = 1
    want = ['noshear', '1p', '1m'] if types is None else list(types)
    out.expect(sorted(res) == sorted(want), 'types', 'types %s expected %s' % (
        sorted(res), sorted(want)))
    w = mb.singles[0].getWcs()
    xy0 = case['xy0']
    icen = (xy0[0] + int(np.floor((dims[1] - 1)/2 + 0.5)),
            xy0[1] + int(np.floor((dims[0] - 1)/2 + 0.5)))
    J = lm.jac_at(w, *icen)
    for t in want:
        if t not in res:
            continue
        for b in range(nb):
            e, o = res[t][b], mb.singles[b]
            sigt = target_sigma(b, stats, J)
            im = (analytic(objs[b], cen, J, SH[t], sigt, dims)
                  + analytic(nobjs[b], cen, J, SH[t], sigt, dims, -1))
            d = np.abs(e.image.array - im).max()
            out.expect(d < 8e-4*im.max(), 'image-%s' % t,
                       lambda: 'type %s band %d: image differs by %g of its peak' % (
                           t, b, d/im.max()))
            nim = analytic(nobjs[b], cen, J, SH[t], sigt, dims, -1)
            d = np.abs(nres[t][b].image.array - nim).max()
            out.expect(d < 8e-4*nim.max(), 'noise-%s' % t,
                       lambda: 'type %s band %d: noise differs by %g of its peak' % (
                           t, b, d/nim.max()))
            out.expect(np.allclose(e.variance.array, 2*before[b]['variance'], rtol=1e-5),
                       'variance', 'variance is not doubled')
            out.expect(np.array_equal(e.mask.array, before[b]['mask']), 'mask', 'mask differs')
            out.expect(e.getBBox() == o.getBBox() and e.getWcs() == w
                       and e.getFilter() == o.getFilter(), 'attributes',
                       'box, coordinate system or filter differ')
            out.expect(isinstance(e, afw_image.ExposureD), 'precision', 'not double precision')
            p = lm.psf_image(e, icen)
            n = p.shape[0]
            A = np.array([[J[0], J[1]], [J[2], J[3]]])
            pw = gauss_image((n, n), ((n - 1)/2,)*2, 1.0,
                             np.linalg.inv(A) @ (sigt**2*np.eye(2)) @ np.linalg.inv(A).T)
            out.expect(p.shape == (23, 23) and np.allclose(p, pw/pw.sum(), atol=1.5e-3*pw.max()),
                       'psf', lambda: 'psf of type %s band %d is not the round target: %g' % (
                           t, b, np.abs(p - pw/pw.sum()).max()/pw.max()))
    for a, m in ((before, mb), (nbefore, nmb)):
        for x, s in zip(a, lm.snaps(m)):
            bad = lm.same(x, s)
            out.expect(not bad, 'input', lambda: '%s of the input changed' % bad)
    if stats is not None:
        out.expect(np.array_equal(stats, sstats), 'stats', 'statistics were changed')
    return out


def run_indep(case):
    """one band, one type alone give the same as all together"""
    out = Out(outcome=tuple(case['types']))
    nb = max([2] + case['bands']) + 1
    base = dict(case, types=list(SH), nb=nb)
    mb, objs, cen = build(base)
    nmb = build(base, noise=True)[0]
    stats = stats_of(nb) if case['stats'] else None
    with env.use(answer):
        alld = mx.get_metacal_mbexps_fixnoise(mb, nmb, types=list(SH), psf_stats=stats)[0]
        idx = case['bands']
        sub = lm.mbexp_of([mb.singles[i] for i in idx])
        nsub = lm.mbexp_of([nmb.singles[i] for i in idx])
        some = mx.get_metacal_mbexps_fixnoise(
            sub, nsub, types=list(case['types']),
            psf_stats=None if stats is None else stats[idx])[0]
    for t in case['types']:
        for j, i in enumerate(idx):
            a, b = alld[t].singles[i], some[t].singles[j]
            out.expect(np.array_equal(a.image.array, b.image.array)
                       and np.array_equal(a.variance.array, b.variance.array), 'independent',
                       lambda: 'type %s band %d differs when made together with others' % (t, i))
    return out


def run_bad(case):
    out = Out(outcome=case['types'])
    mb = build(case)[0]
    with env.use(answer):
        try:
            if case['what'] == 'types':
                mx.get_metacal_mbexps_fixnoise(mb, mb, types=['noshear', case['types']])
            else:
                mx.get_metacal_mbexps_fixnoise(mb, mb, psf_stats=stats_of(case['nb'] + 1))
        except Exception:
            return out
    out.bad('accepted', '%s was accepted' % case['what'])
    return out


BASE = {'dims': (45, 45), 'xy0': (100, -20), 'wcs': 'rot', 'nb': 1, 'off': (0.3, 0.6), 'obj': 2.0,
        'types': None, 'stats': 1, 'which': 'mb'}


def warmup():
    run(dict(BASE, types=['1p']))


def spaces(tier):
    th = tier == 'thorough'
    cases = []
    allt = list(SH)
    lists = [None] + [list(c) for n in (1, 2) for c in itertools.permutations(allt, n)]
    lists += [allt, allt[::-1]]
    if th:
        lists += [list(c) for n in (3, 4) for c in itertools.combinations(allt, n)]
    for ty in lists:
        for st in (0, 1):
            for which in ('mb', 'exp'):
                cases.append(dict(BASE, types=ty, stats=st, which=which, nb=2))
    for dims in ((45, 45), (46, 46), (45, 53), (52, 45), (47, 50)):
        for xy0 in ((0, 0), (100, -20)):
            for w in ('std', 'rot', 'curved'):
                for obj in (0.0, 2.0) if not th else (0.0, 2.0, -3.0):
                    for off in ((0, 0), (2.5, -1.3)):
                        for kind in 'FD' if th else 'F':
                            cases.append(dict(BASE, dims=dims, xy0=xy0, wcs=w, obj=obj, off=off,
                                              types=allt, kind=kind, stats=int(obj != 0)))
    for nb in (1, 2, 3, 4, 6):
        for st in (0, 1):
            cases.append(dict(BASE, nb=nb, stats=st, types=allt, wcs='curved'))
    ind = [dict(BASE, types=ty, bands=list(b), stats=st)
           for ty in ([['1p'], ['2m', 'noshear'], ['1m', '2p']] if not th else
                      [list(c) for n in (1, 2, 3) for c in itertools.combinations(allt, n)])
           for b in ([0], [1], [2], [0, 2], [2, 1], [2, 1, 0], [5, 0, 3, 4]) for st in (0, 1)]
    bad = [dict(BASE, what='types', types=t, nb=1) for t in ('3p', '', '1', '1p_psf', 'NOSHEAR')]
    bad += [dict(BASE, what='stats', types='', nb=n) for n in (1, 2)]
    return [Space('analytic', cases, run), Space('independent', ind, run_indep),
            Space('refused', bad, run_bad)]
