"""C04: foreground apodization masks."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc.obsmodel import apodization
from metadetect.masking import make_foreground_apodization_mask
from .c03 import warmup as _w

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('every hole list up to two holes from a grid of positions and radii x every '
        'kernel scale; non-trivial: some pixel is attenuated')
ASSUMPTIONS = ['values are compared to 1e-9',
               '90 degree symmetrization only for square images']


def run(case):
    dims = tuple(case['dims'])
    holes = case['holes']
    dt = case.get('dt', 'f8')
    xm = np.array([p[0] for p in holes], dtype=dt)
    ym = np.array([p[1] for p in holes], dtype=dt)
    rm = np.array([p[2] for p in holes], dtype=dt)
    keep = [a.copy() for a in (xm, ym, rm)]
    got = make_foreground_apodization_mask(
        xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=bool(case['sym']), ap_rad=case['ap'])
    want = apodization(dims, holes, case['ap'])
    if case['sym']:
        n = dims[0]
        w0 = want.copy()
        for i in range(n):
            for j in range(n):
                want[i, j] = w0[i, j]*w0[j, n-1-i]
    out = Out(outcome=tuple(np.round(np.sort(want.ravel())[:4], 6)),
              trivial=not (want < 1).any())
    out.expect(got.shape == dims and np.allclose(got, want, rtol=0, atol=1e-9), 'values',
               lambda: 'apodization is\n%s\nexpected\n%s' % (got, want))
    out.expect(np.all(got >= 0) and np.all(got <= 1), 'range', 'outside [0,1]')
    out.expect(np.all(got[want == 1] == 1), 'outside', 'attenuated outside the holes')
    out.expect(all(np.array_equal(a, b) for a, b in zip(keep, (xm, ym, rm))),
               'input-modified', 'the hole list was modified')
    return out


def warmup():
    run({'dims': [3, 3], 'holes': [[1, 1, 1]], 'sym': 0, 'ap': 1.0})


def spaces(tier):
    thorough = tier == 'thorough'
    xs = [-4, -1.5, -0.5, 0, 0.25, 1, 2.5, 4, 6, 7.5, 11]
    rs = [0, 0.5, 1.25, 2.5, 4, 7, 12]
    one = [{'dims': list(d), 'holes': [[x, y, r]], 'sym': s, 'ap': ap}
           for d in [(5, 5), (4, 7), (6, 3)]
           for x, y, r in itertools.product(xs, xs, rs)
           for s in ((0, 1) if d[0] == d[1] else (0,)) for ap in (0.5, 1.5)]
    pool = [[x, y, r] for x in (-2, 0.5, 4) for y in (-1, 1, 3.5) for r in (1.5, 3, 6)]
    two = [{'dims': list(d), 'holes': [a, b], 'sym': int(d[0] == d[1]), 'ap': ap}
           for d in [(5, 5), (4, 7)] for a in pool for b in pool for ap in (0.25, 1.0)]
    misc = [{'dims': [4, 5], 'holes': hs, 'sym': 0, 'ap': ap, 'dt': dt}
            for hs in ([], [[1, 2, 2]], [[1, 2, 2], [1, 2, 2]])
            for ap in (0.25, 0.5, 1.0, 1.5, 3.0) for dt in ('f8', 'f4', '>f8', '>f4', 'i8')]
    many = [{'dims': list(d), 'sym': s, 'ap': ap, 'holes':
             [[(17*k) % 83 - 9.25, (29*k) % 71 - 6.5, 2.75 + (7*k) % 5 + (k % 11 == 0)*9]
              for k in range(n)]}
            for d, s in (((40, 40), 0), ((40, 40), 1), ((30, 55), 0), ((51, 23), 0))
            for n in (1, 7, 40) for ap in (0.5, 1.5)]
    sp = [Space('one-hole', one, run), Space('two-holes', two, run),
          Space('dtypes-and-scales', misc, run), Space('many', many, run)]
    if thorough:
        sp.append(Space('three-holes', [
            {'dims': [6, 6], 'holes': [a, b, c], 'sym': 1, 'ap': 1.5}
            for a in pool for b in pool[::2] for c in pool[::3]], run))
        fine = [q/4 for q in range(-8, 33, 1)]
        sp.append(Space('one-hole-fine', [
            {'dims': [6, 5], 'holes': [[x, y, r]], 'sym': 0, 'ap': ap}
            for x in fine for y in fine for r in (0.75, 3, 9) for ap in (0.5, 2.0)], run))
    return sp
