"""C12: the masked fraction of an object."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import obsmodel as om
from metadetect.mfrac import measure_mfrac
from .c10 import start_of

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('every position of a grid in and around the image x box size x aperture x masked '
        'fraction map x weight state; oracle: independent Gaussian weighted mean; non-trivial: '
        'the map is not constant')
ASSUMPTIONS = ['the stand-in for the Gaussian sums agrees with ngmix (pixel centre values, '
               'hard cut at the aperture radius)', 'tolerance 1e-5']


def mfmap(kind, dims):
    r, c = np.mgrid[:dims[0], :dims[1]]
    if kind == 'const':
        return np.full(dims, 0.375)
    if kind == 'zero':
        return np.zeros(dims)
    if kind == 'one':
        return np.ones(dims)
    if kind == 'half':
        return (c < dims[1]/2).astype('f8')
    return ((3*r + 5*c) % 7)/7.0


def wmap(kind, dims):
    r, c = np.mgrid[:dims[0], :dims[1]]
    w = np.full(dims, 3.0)
    if kind == 'checker':
        w[(r + c) % 2 == 0] = 0
    elif kind == 'left':
        w[:, dims[1]//2:] = 0
    elif kind == 'one':
        w[:] = 0
        w[1, 1] = 1.0
    return w


def expected(mf, w, x, y, box, fwhm, jac):
    if box <= 0:
        return 1.0
    dims = mf.shape
    r0, c0 = start_of(y, box), start_of(x, box)
    if not np.any(w[r0:r0+box, c0:c0+box] > 0):
        return 1.0
    T2 = 2*(fwhm/(2*np.sqrt(2*np.log(2))))**2
    num = den = 0.0
    for r in range(r0, min(dims[0], r0+box)):
        for c in range(c0, min(dims[1], c0+box)):
            v = jac.dvdrow*(r-y) + jac.dvdcol*(c-x)
            u = jac.dudrow*(r-y) + jac.dudcol*(c-x)
            r2 = u*u + v*v
            if r2 < (2*fwhm)**2:
                g = np.exp(-r2/T2)
                num += g*mf[r, c]
                den += g
    return num/den if den > 0 else 1.0


def run(case):
    dims = tuple(case['dims'])
    mf = mfmap(case['mf'], dims)
    w = wmap(case['w'], dims)
    ob = om.make_obs(dims, 0, weight=w, scale=case['scale'], mfrac=False)
    objs = case['objs']
    x = np.array([o[0] for o in objs], dtype='f4')
    y = np.array([o[1] for o in objs], dtype='f4')
    box = np.array([o[2] for o in objs], dtype='i4')
    fw = case['fwhm']
    before = om.snap(ob)
    mf0, x0, y0, b0 = mf.copy(), x.copy(), y.copy(), box.copy()
    res = measure_mfrac(mfrac=mf, x=x, y=y, box_sizes=box, obs=ob, fwhm=fw)
    out = Out(trivial=case['mf'] in ('const', 'zero', 'one'), steps=len(objs))
    after = om.snap(ob)
    out.expect(all(np.array_equal(after[k], before[k]) for k in om.FIELDS if k in before) and
               np.array_equal(mf, mf0) and np.array_equal(x, x0) and np.array_equal(y, y0) and
               np.array_equal(box, b0), 'input-modified', 'inputs modified')
    out.expect(len(res) == len(objs), 'length', 'length %d' % len(res))
    fw = 1.2 if fw is None else fw
    for i, (xx, yy, bb) in enumerate(objs):
        e = expected(mf, w, float(x[i]), float(y[i]), bb, fw, ob.jacobian)
        v = res[i]
        out.expect(np.isfinite(v) and -1e-9 <= v <= 1+1e-9, 'range',
                   lambda: 'masked fraction %s' % v)
        out.expect(abs(v - e) < 1e-5, 'value', lambda: 'masked fraction of (%s,%s) box %s is %s '
                   'expected %s' % (xx, yy, bb, v, e))
    out.outcome = [round(float(v), 6) for v in res]
    return out


def spaces(tier):
    th = tier == 'thorough'
    cases = []
    dims = [9, 7]
    for mf, w, fw, sc in itertools.product(('const', 'zero', 'one', 'half', 'mod'),
                                           ('full', 'checker', 'left', 'one'),
                                           (None, 1.2, 0.5, 3.0), (0.2, 0.5)):
        if not th and mf in ('zero', 'one') and sc == 0.5:
            continue
        for box in (-1, 0, 2, 4, 8, 16) + ((3, 6, 12) if th else ()):
            objs = [[float(x), float(y), box] for x in np.arange(-3, 11, 1.25 if not th else 0.5)
                    for y in np.arange(-3, 13, 1.75 if not th else 0.75)]
            cases.append(dict(dims=dims, mf=mf, w=w, fwhm=fw, scale=sc, objs=objs))
    P = [[3.0, 4.0, 8], [0.0, 0.0, 4], [6.4, 8.4, 8], [2.0, 30.0, 8], [3.0, 3.0, 0],
         [3.0, 5.25, 2]]
    multi = []
    for n in range(0, 4):
        for sel in itertools.permutations(range(len(P)), n):
            for fw in (None, 0.8):
                multi.append(dict(dims=dims, mf='mod', w='checker', fwhm=fw, scale=0.25,
                                  objs=[P[k] for k in sel]))
    return [Space('grid', cases, run), Space('several-objects', multi, run)]
