"""C14: bands are averaged with their inverse variances, whatever their order."""
import itertools
import numpy as np
import ngmix
from ngmix import env
from mc.core import Space, Out
from mc import fitmodel as fm
from mc import obsmodel as om
from metadetect import procflags as pf
from metadetect.fitting import fit_mbobs_wavg

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('every assignment of weight maps (flat, holes in every position class, varied, a single '
        'good pixel, values <= 0) to up to three bands (menus of up to six) x order and '
        'choice of shear bands x '
        'symmetrization x regularization; oracle: independent average; non-trivial: more than '
        'one band or holes')
ASSUMPTIONS = ['square stamps', 'per band moments are given by the environment']
DIMS = (5, 5)


def weights(kind, band):
    w = np.full(DIMS, 2.0 + 3*band)
    r, c = np.mgrid[:5, :5]
    if kind == 'corner':
        w[0, 1] = 0
    elif kind == 'centre':
        w[2, 2] = 0
    elif kind == 'edge':
        w[2, 0] = 0
        w[1, 2] = -1.0
    elif kind == 'varied':
        w = w*(1 + r*5 + c)
    elif kind == 'varholes':
        w = w*(1 + r*5 + c)
        w[3, 4] = 0
        w[0, 0] = 0
    elif kind == 'half':
        w[:, 3:] = 0
    elif kind == 'quarter':
        w = w*(1 + r*5 + c)
        w[2:, :] = 0
        w[:, 3:] = 0
    elif kind == 'one':
        w[:] = 0
        w[2, 2] = 7.0 + band
    elif kind == 'oneoff':
        w[:] = 0
        w[1, 3] = 7.0 + band
    return w


def symm(w):
    """zero wherever any of the four 90 degree rotations is not positive"""
    n = w.shape[0]
    o = w.copy()
    for i in range(n):
        for j in range(n):
            for a, b in ((j, n-1-i), (n-1-i, n-1-j), (n-1-j, i)):
                if w[a, b] <= 0:
                    o[i, j] = 0
    return o


def run(case):
    nb = len(case['w'])
    mb = ngmix.MultiBandObsList()
    raw = []
    for i, k in enumerate(case['w']):
        w = weights(k, i)*case['scale']
        raw.append(w)
        mb.append(fm.make_band('ok', i, weight=w))
    before = [om.snap(ol[0]) for ol in mb]
    seen = {}

    def handler(kind, info):
        m = info['obs'].meta
        if not m['psf']:
            seen[m['band']] = np.array(info['obs'].weight)
        return fm.answer('good', m['band'], m['psf'])

    kw = {}
    if case['symm'] is not None:
        kw['symmetrize'] = case['symm']
    if case['reg']:
        kw['fwhm_reg'] = case['reg']
    with env.use(handler):
        d = fit_mbobs_wavg(mbobs=mb, fitter=fm.make_fitter('wmom'), bmask_flags=fm.EDGE_BIT,
                           shear_bands=None if case['shear'] is None else list(case['shear']),
                           **kw)
    out = Out(trivial=nb == 1 and case['w'][0] == 'flat')
    for ol, b in zip(mb, before):
        a = om.snap(ol[0])
        out.expect(all(np.array_equal(a[k], b[k]) for k in om.FIELDS if k in b),
                   'input-modified', 'observations modified')
    do_symm = case['symm'] is not False
    use = [symm(w) if do_symm else w for w in raw]
    shear = sorted(case['shear']) if case['shear'] is not None else list(range(nb))
    bands = []
    dead = []
    for i, w in enumerate(use):
        if not np.any(w > 0):
            dead.append(i)
            out.expect(i not in seen, 'fit-dead', 'band %d without weight was fit' % i)
            bands.append(None)
            continue
        out.expect(i in seen and np.array_equal(seen[i], w), 'weights',
                   lambda: 'band %d was fit with weights\n%s\nexpected\n%s' % (i, seen.get(i), w))
        bands.append({'wgt': np.median(w[w > 0]), 'obj_sums': fm.sums_for('good', i, False),
                      'psf_sums': fm.sums_for('good', i, True)})
    flags = int(d['wmom_flags'][0])
    if dead:
        out.expect(flags & pf.ZERO_WEIGHTS, 'zero-weights', 'flags %d' % flags)
    else:
        out.expect(flags == 0, 'flags', 'flags %d' % flags)
    if not [i for i in dead if i in shear]:
        m = fm.WavgModel(bands, shear, case['reg'])
        mom = m.measure()
        eo = m.shape(*mom['obj'], case['reg'])
        ep = m.shape(*mom['psf'], 0)
        for n, v in (('g', eo['e']), ('g_cov', eo['e_cov']), ('T', eo['T']), ('T_err', eo['T_err']),
                     ('s2n', eo['s2n']), ('psf_g', ep['e']), ('psf_T', ep['T']),
                     ('T_ratio', eo['T']/ep['T'])):
            out.expect(np.allclose(d['wmom_' + n][0], v, rtol=1e-9), 'value-' + n,
                       lambda: '%s is %s expected %s' % (n, d['wmom_' + n][0], v))
        if len(shear) == 1 and not case['reg']:
            a = fm.answer('good', shear[0], False)
            out.expect(np.allclose(d['wmom_g'][0], a['e']) and
                       np.allclose(d['wmom_T'][0], a['T']), 'single',
                       'a single band must reproduce its own fit')
    bf = np.atleast_1d(d['wmom_band_flux'][0])
    for i in range(nb):
        if i not in dead:
            out.expect(np.isclose(bf[i], fm.answer('good', i, False)['flux']), 'flux',
                       'flux of band %d is %s' % (i, bf[i]))
    out.expect(d['shear_bands'][0] == ''.join(map(str, shear)), 'label',
               'label %r' % d['shear_bands'][0])
    out.outcome = (flags, np.round(d['wmom_g'][0], 9).tolist(), d['shear_bands'][0])
    return out


def spaces(tier):
    th = tier == 'thorough'
    kinds = ['flat', 'corner', 'centre', 'edge', 'varied', 'varholes', 'half', 'quarter', 'one',
             'oneoff']
    cases = []
    for nb in (1, 2, 3):
        ks = kinds if nb < 3 or th else ['flat', 'edge', 'varholes', 'quarter', 'oneoff']
        shears = [None] + [list(p) for n in range(1, nb+1)
                           for p in itertools.permutations(range(nb), n)]
        for w in itertools.product(ks, repeat=nb):
            for sh in shears:
                for sy in (None, True, False):
                    for reg in (0, 0.8):
                        for sc in ((1.0, 0.001) if nb == 2 else (1.0,)):
                            cases.append(dict(w=list(w), shear=sh, symm=sy, reg=reg, scale=sc))
    many = []
    for nb in (4, 5, 6):
        shears = [None, [nb-1], [nb-1, 0], list(range(nb))[::-1], [3, 1], list(range(1, nb)),
                  [2, 3, 0]]
        for first, stride in itertools.product(range(len(kinds)), (0, 1, 3)):
            w = [kinds[(first + stride*i) % len(kinds)] for i in range(nb)]
            for k, sh in enumerate(shears):
                many.append(dict(w=w, shear=sh, symm=(None, True, False)[(k + first) % 3],
                                 reg=0.8*(k % 2), scale=1.0))
    return [Space('averages', cases, run), Space('many-bands', many, run)]
