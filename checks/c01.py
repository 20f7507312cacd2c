"""C01: interpolating over a mask touches nothing but the masked pixels."""
import itertools
import numpy as np
from mc.core import Space, Out
from metadetect.interpolate import interpolate_image_at_mask

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('every bad-pixel mask of the small images (all 2^n subsets) and every '
        'rectangle / cross of bad pixels of larger images, x every setting of the '
        'limits, buffers and noise filling listed per space; non-trivial: at least '
        'one bad pixel and at least one good one')
ASSUMPTIONS = ['image values outside the mask are finite',
               'buffers >= 1 (buff) and >= 0 (isolation)']


class SeqRng(np.random.RandomState):
    """normal draws 1, 2, 3, ... times the scale: makes every draw recognisable"""
    def __init__(self, const=None):
        super().__init__(5)
        self.n = 0
        self.const = const

    def _draw(self, size):
        num = 1 if size is None else int(np.prod(size))
        if self.const is not None:
            z = np.full(num, float(self.const))
        else:
            z = np.arange(self.n + 1, self.n + num + 1, dtype='f8')
        self.n += num
        return z[0] if size is None else z.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale*self._draw(size)

    def standard_normal(self, size=None):
        return self._draw(size)

    def randn(self, *dims):
        return self._draw(dims if dims else None)


def bits(m, shape):
    n = shape[0]*shape[1]
    return np.array([(m >> i) & 1 for i in range(n)], dtype=bool).reshape(shape)


def mask_of(case):
    shape = tuple(case['shape'])
    if 'm' in case:
        return bits(case['m'], shape)
    bad = np.zeros(shape, dtype=bool)
    for r0, r1, c0, c1 in case['rects']:
        bad[r0:r1, c0:c1] = True
    return bad


def nearby(bad, buff):
    """pixels within Chebyshev distance buff of a bad pixel"""
    out = np.zeros_like(bad)
    nr, nc = bad.shape
    for r, c in np.argwhere(bad):
        out[max(0, r-buff):r+buff+1, max(0, c-buff):c+buff+1] = True
    return out


def isolated(bad, iso):
    out = np.zeros_like(bad)
    for r, c in np.argwhere(bad):
        win = bad[max(0, r-iso):r+iso+1, max(0, c-iso):c+iso+1]
        out[r, c] = win.all()
    return out


def degenerate(good):
    pts = np.argwhere(good)
    if len(pts) < 3:
        return True
    d = pts - pts[0]
    for i in range(1, len(d)):
        for j in range(i+1, len(d)):
            if d[i][0]*d[j][1] - d[i][1]*d[j][0] != 0:
                return False
    return True


def base_image(shape, k=0):
    r, c = np.mgrid[:shape[0], :shape[1]]
    return np.sin(1.7*r + 0.3 + k) * np.cos(0.9*c - 0.2*r) + 3.0


def call(image, bad, case, rng=None):
    kw = {}
    if case.get('fill'):
        kw = dict(fill_isolated_with_noise=True, weight=4.0,
                  rng=SeqRng() if rng is None else rng)
    return interpolate_image_at_mask(
        image=image, bad_msk=bad, maxfrac=case['maxfrac'], buff=case['buff'],
        iso_buff=case['iso'], **kw)


def run(case):
    bad = mask_of(case)
    shape = bad.shape
    im = base_image(shape)
    # the content of bad pixels must not matter: NaN in one run, junk in another
    im1 = im.copy()
    im1[bad] = np.nan
    im2 = im.copy()
    im2[bad] = -7.0e5
    bad1 = bad.copy()
    in1 = im1.copy()
    r1 = call(in1, bad1, case)
    frac = bad.sum()/bad.size
    out = Out(trivial=not bad.any() or bad.all())

    out.expect(np.array_equal(in1, im1, equal_nan=True), 'input-modified',
               'the input image was modified')
    out.expect(np.array_equal(bad1, bad), 'mask-modified', 'the input mask was modified')

    if frac > case['maxfrac'] or bad.all():
        out.expect(r1 is None, 'not-none', 'expected None for bad fraction %s' % frac)
        out.outcome = 'none'
        return out

    # what is there to interpolate from
    b2 = bad & ~isolated(bad, case['iso']) if case.get('fill') else bad
    good = nearby(b2, case['buff']) & ~b2
    if b2.any() and degenerate(good):
        out.expect(r1 is None, 'degenerate-not-none',
                   'no triangle of good pixels: expected None')
        out.outcome = 'degenerate'
        return out

    if not out.expect(r1 is not None, 'none', 'unexpected None'):
        return out
    out.expect(r1 is not in1 and not np.shares_memory(r1, in1), 'aliased',
               'the result aliases the input')
    out.expect(r1.shape == shape, 'shape', 'shape changed')
    out.expect(np.array_equal(r1[~bad], im[~bad]), 'good-changed',
               lambda: 'good pixels changed: %s -> %s' % (im, r1))
    out.expect(np.isfinite(r1).all(), 'nonfinite',
               lambda: 'non finite pixels in the result\n%s' % r1)
    r2 = call(im2, bad.copy(), case)
    out.expect(r2 is not None and np.array_equal(r1, r2), 'depends-on-bad',
               lambda: 'the result depends on the value of bad pixels\n%s\n%s' % (r1, r2))
    out.outcome = (int(bad.sum()), int(isolated(bad, case['iso']).sum()),
                   int(good.sum()))
    return out


def run_errors(case):
    """noise filling needs a generator and a weight; inputs stay untouched"""
    out = Out(outcome=str(case))
    im = base_image((5, 5))
    bad = np.zeros((5, 5), dtype=bool)
    bad[1:4, 1:4] = True
    kw = {}
    if case['rng']:
        kw['rng'] = SeqRng()
    if case['weight']:
        kw['weight'] = 2.0
    src = im.copy()
    try:
        r = interpolate_image_at_mask(image=src, bad_msk=bad,
                                      fill_isolated_with_noise=True, **kw)
        ok = case['rng'] and case['weight'] and r is not None
    except RuntimeError:
        ok = not (case['rng'] and case['weight'])
    out.expect(ok, 'missing-args', 'wrong handling of missing rng/weight')
    out.expect(np.array_equal(src, im), 'input-modified', 'input modified')
    return out


def cross_rects(nr, nc):
    """every rectangle"""
    for r0, r1 in itertools.combinations(range(nr+1), 2):
        for c0, c1 in itertools.combinations(range(nc+1), 2):
            yield [r0, r1, c0, c1]


def large_rects(nr, nc):
    """mask patterns for large images: many small holes, stripes, a big hole"""
    many = [[r, r + 1 + (r + c) % 3, c, c + 1 + (r*c) % 2]
            for r in range(1, nr - 3, 6) for c in range(2, nc - 2, 7)]
    stripes = [[r, r + 2, 0, nc] for r in range(3, nr, 9)]
    return [many, stripes, [[5, nr - 4, 6, nc - 7]], [[0, nr//2, 0, nc]],
            many + [[nr//3, 2*nr//3, nc//3, 2*nc//3]]]


def warmup():
    run({'shape': [3, 3], 'm': 1, 'maxfrac': 1.0, 'buff': 1, 'iso': 1, 'fill': True})
    run({'shape': [3, 3], 'm': 1, 'maxfrac': 1.0, 'buff': 4, 'iso': 1, 'fill': True})


def spaces(tier):
    thorough = tier == 'thorough'
    shapes = [(2, 3), (3, 3), (3, 4), (1, 4)] + ([(4, 4), (3, 5)] if thorough else [])
    params = [(0.9, 4, 1, 0), (1.0, 1, 1, 0), (1.0, 4, 1, 1), (0.5, 2, 1, 1),
              (1.0, 2, 0, 1), (0.25, 1, 2, 0)]
    cases = []
    for sh in shapes:
        for mf, bf, iso, fl in params:
            for m in range(2**(sh[0]*sh[1])):
                cases.append({'shape': list(sh), 'm': m, 'maxfrac': mf, 'buff': bf,
                              'iso': iso, 'fill': fl})
    big = []
    for sh in [(7, 5), (5, 8)] + ([(9, 7)] if thorough else []):
        for mf, bf, iso, fl in [(1.0, 1, 1, 1), (1.0, 4, 2, 1), (0.9, 2, 1, 0)]:
            for rect in cross_rects(*sh):
                big.append({'shape': list(sh), 'rects': [rect], 'maxfrac': mf,
                            'buff': bf, 'iso': iso, 'fill': fl})
                # together with a hole at the transposed corner
                big.append({'shape': list(sh), 'rects': [rect, [sh[0]-1, sh[0], 0, 1]],
                            'maxfrac': mf, 'buff': bf, 'iso': iso, 'fill': fl})
    errs = [{'rng': a, 'weight': b} for a in (0, 1) for b in (0, 1)]
    large = [{'shape': list(sh), 'rects': rects, 'maxfrac': mf, 'buff': bf, 'iso': iso, 'fill': fl}
             for sh in ((48, 48), (30, 71)) for rects in large_rects(*sh)
             for mf, bf, iso, fl in ((1.0, 4, 1, 0), (0.9, 4, 1, 1), (1.0, 2, 3, 1))]
    return [
        Space('large', large, run),
        Space('all-masks', cases, run, note='all masks of %s' % (shapes,)),
        Space('rectangles', big, run),
        Space('arguments', errs, run_errors),
    ]
