"""C03: foreground bit masks are exactly the union of the discs."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc.obsmodel import disc
from metadetect.masking import make_foreground_bmask

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('every hole list up to two (thorough: three) holes from a grid of positions on, '
        'at the border of and off the image x radii, for square and non-square images; '
        'non-trivial: some pixel is masked')
ASSUMPTIONS = ['positions and radii are multiples of 1/4 so that distance comparisons are '
               'exact', '90 degree symmetrization only for square images']


def sym(m):
    n = m.shape[0]
    out = m.copy()
    for i in range(n):
        for j in range(n):
            # the pixel found after turning the image by 90 degrees
            if m[j, n-1-i]:
                out[i, j] = True
    return out


def run(case):
    dims = tuple(case['dims'])
    holes = case['holes']
    dt = case.get('dt', 'f8')
    xm = np.array([p[0] for p in holes], dtype=dt)
    ym = np.array([p[1] for p in holes], dtype=dt)
    rm = np.array([p[2] for p in holes], dtype=dt)
    keep = [a.copy() for a in (xm, ym, rm)]
    got = make_foreground_bmask(xm=xm, ym=ym, rm=rm, dims=dims,
                                symmetrize=bool(case['sym']), mask_bit_val=case['bit'])
    m = disc(dims, holes)
    if case['sym']:
        m = sym(m)
    want = np.where(m, case['bit'], 0)
    out = Out(outcome=(int(m.sum()), case['bit']), trivial=not m.any())
    out.expect(got.shape == dims and np.array_equal(got, want), 'mask',
               lambda: 'mask is\n%s\nexpected\n%s' % (got, want))
    out.expect(got.dtype == np.int32, 'dtype', 'mask is not a 32 bit integer image')
    out.expect(all(np.array_equal(a, b) for a, b in zip(keep, (xm, ym, rm))),
               'input-modified', 'the hole list was modified')
    return out


def warmup():
    run({'dims': [3, 3], 'holes': [[1, 1, 1]], 'sym': 0, 'bit': 1})


def spaces(tier):
    thorough = tier == 'thorough'
    one, two = [], []
    xs = [-4, -1.5, -1, -0.5, 0, 0.25, 1, 2.5, 3, 4, 5, 6, 7.5, 11]
    rs = [0, 0.5, 1, 1.25, 1.5, 2.5, 4, 5, 12]
    for dims in [(5, 5), (4, 7), (6, 3), (1, 5)]:
        for x, y, r in itertools.product(xs, xs, rs):
            for s in ((0, 1) if dims[0] == dims[1] else (0,)):
                one.append({'dims': list(dims), 'holes': [[x, y, r]], 'sym': s, 'bit': 4})
    pool = [[x, y, r] for x in (-2, 0.5, 4, 6) for y in (-1, 1, 3.5, 5)
            for r in (0.5, 1.5, 3)]
    for dims in [(5, 5), (4, 7)]:
        for a, b in itertools.product(pool, pool):
            s = int(dims[0] == dims[1])
            two.append({'dims': list(dims), 'holes': [a, b], 'sym': s, 'bit': 2**30})
    misc = [{'dims': list(d), 'holes': hs, 'sym': 0, 'bit': b, 'dt': dt}
            for d in [(5, 5), (3, 6)] for hs in ([], [[1, 2, 2]], [[1, 2, 2], [4, 0, 2]])
            for b in (1, 2, 2**10, 2**30, 3) for dt in ('f8', 'f4', '>f8', '>f4', 'i8')]
    # many objects on large images
    many = [{'dims': list(d), 'sym': s, 'bit': 2**30, 'holes':
             [[(17*k) % 83 - 9.25, (29*k) % 71 - 6.5, 0.75 + (7*k) % 5 + (k % 11 == 0)*9]
              for k in range(n)]}
            for d, s in (((64, 64), 0), ((64, 64), 1), ((40, 75), 0), ((71, 33), 0))
            for n in (1, 7, 40, 150)]
    sp = [Space('one-hole', one, run), Space('two-holes', two, run),
          Space('dtypes-and-bits', misc, run), Space('many', many, run)]
    if thorough:
        p3 = pool[::3]
        sp.append(Space('three-holes', [
            {'dims': list(d), 'holes': [a, b, c], 'sym': int(d[0] == d[1]), 'bit': 8}
            for d in [(5, 5), (7, 4)] for a in p3 for b in p3 for c in p3], run))
        fine = [q/4 for q in range(-8, 33)]
        sp.append(Space('one-hole-fine', [
            {'dims': [6, 5], 'holes': [[x, y, r]], 'sym': 0, 'bit': 1}
            for x in fine for y in fine for r in (0.25, 0.75, 1.75, 3, 6)], run))
    return sp
