"""C02: interpolated and noise filled values are the right ones."""
import numpy as np
from mc.core import Space, Out
from metadetect.interpolate import interpolate_image_at_mask
from .c01 import (
    SeqRng, mask_of, nearby, isolated, degenerate, base_image, call, cross_rects, large_rects,
)

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('every mask / rectangle as in C01, over every plane of a small basis; the '
        'oracle is the plane itself inside the hull of the usable good pixels, and a '
        'recognisable sequence of noise draws; non-trivial: at least one bad pixel')
ASSUMPTIONS = ['reproduction of planes is checked to 1e-6',
               'noise draws are replaced by the sequence 1,2,3,... times the scale']


def in_hull(pts):
    """returns f(r,c): 1 strictly inside, 0 on the boundary, -1 outside the
    convex hull of the integer points (exact integer arithmetic)"""
    pts = sorted(map(tuple, pts))

    def cross(o, a, b):
        return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])
    lower = []
    for p in pts:
        while len(lower) >= 2 and cross(lower[-2], lower[-1], p) <= 0:
            lower.pop()
        lower.append(p)
    upper = []
    for p in reversed(pts):
        while len(upper) >= 2 and cross(upper[-2], upper[-1], p) <= 0:
            upper.pop()
        upper.append(p)
    hull = lower[:-1] + upper[:-1]

    def f(p):
        best = 1
        for i in range(len(hull)):
            c = cross(hull[i], hull[(i+1) % len(hull)], p)
            if c < 0:
                return -1
            if c == 0:
                best = 0
        return best
    return f


PLANES = [(1.0, 0.0, 0.0), (2.0, 0.5, -0.25), (-1.0, -0.3, 1.1)]


def run_plane(case):
    """without noise filling: a plane comes back as the plane; outside the hull
    of the usable good pixels the value is 0"""
    bad = mask_of(case)
    out = Out(trivial=not bad.any())
    if bad.all() or bad.sum()/bad.size > case['maxfrac']:
        out.outcome = 'none'
        return out
    good = nearby(bad, case['buff']) & ~bad
    if bad.any() and degenerate(good):
        out.outcome = 'degenerate'
        return out
    r, c = np.mgrid[:bad.shape[0], :bad.shape[1]]
    hull = in_hull(np.argwhere(good)) if bad.any() else None
    kinds = []
    for a, b, d in PLANES:
        im = a + b*r + d*c
        src = im.copy()
        src[bad] = np.nan
        res = call(src, bad.copy(), case)
        if not out.expect(res is not None, 'none', 'unexpected None'):
            return out
        for pr, pc in np.argwhere(bad):
            where = hull((int(pr), int(pc)))
            v = res[pr, pc]
            if where >= 0:
                ok = abs(v - im[pr, pc]) < (1.0e-6 if bad.size < 400 else 1.0e-4)
            else:
                ok = v == 0.0
            kinds.append(where)
            out.expect(ok, 'value', lambda: 'pixel (%d,%d) %s the hull is %s, plane says %s'
                       % (pr, pc, {1: 'inside', 0: 'on', -1: 'outside'}[where], v,
                          im[pr, pc]))
    out.outcome = tuple(kinds[:len(kinds)//len(PLANES)])
    return out


def run_local(case):
    """good pixels beyond the buffer have no influence; those inside do"""
    bad = mask_of(case)
    out = Out(trivial=not bad.any())
    if bad.all():
        return out
    if case.get('fill'):
        b2 = bad & ~isolated(bad, case['iso'])
    else:
        b2 = bad
    near = nearby(b2, case['buff'])
    if b2.any() and degenerate(near & ~b2):
        return out
    im = base_image(bad.shape)
    far = ~near & ~bad
    im2 = im.copy()
    im2[far] = 1.0e4
    r1 = call(im, bad.copy(), case)
    r2 = call(im2, bad.copy(), case)
    out.expect(r1 is not None and r2 is not None and np.array_equal(r1[bad], r2[bad]),
               'far-influence', 'pixels beyond the buffer changed the result')
    # the outermost ring of the buffer is used as well
    ring = near & ~bad & ~nearby(b2, case['buff'] - 1)
    hull = in_hull(np.argwhere(near & ~b2)) if b2.any() else None
    inner = [tuple(p) for p in np.argwhere(b2) if hull((int(p[0]), int(p[1]))) > 0]
    if ring.any() and inner:
        im3 = im.copy()
        im3[ring] = np.arange(1, ring.sum() + 1)**2 % 7 * 1.0e3
        r3 = call(im3, bad.copy(), case)
        out.expect(r3 is not None and any(r3[p] != r1[p] for p in inner), 'near-influence',
                   'the pixels at the edge of the buffer are not used')
    out.outcome = (int(far.sum()), int(bad.sum()))
    return out


def run_noise(case):
    """isolated pixels hold noise draws of scale 1/sqrt(weight), each used once;
    all other bad pixels are interpolated, with filled pixels counting as good"""
    bad = mask_of(case)
    out = Out(trivial=not bad.any())
    if bad.all():
        return out
    iso = isolated(bad, case['iso'])
    b2 = bad & ~iso
    good = nearby(b2, case['buff']) & ~b2
    if b2.any() and degenerate(good):
        return out
    niso = int(iso.sum())
    im = base_image(bad.shape)
    rng = SeqRng()
    res = call(im.copy(), bad.copy(), case, rng=rng)
    if not out.expect(res is not None, 'none', 'unexpected None'):
        return out
    got = np.sort(res[iso]/0.5)     # weight 4 -> scale 0.5
    out.expect(got.size == niso and np.allclose(got, np.arange(1, niso+1), atol=1e-9),
               'noise-values', lambda: 'isolated pixels hold %s, expected draws 1..%d'
               % (got, niso))
    # constant image with constant draws: everything inside the hull is constant
    k = 3.0
    const = np.full(bad.shape, k)
    const[bad] = np.nan
    res = call(const, bad.copy(), case, rng=SeqRng(const=k/0.5))
    if b2.any():
        hull = in_hull(np.argwhere(good))
        for pr, pc in np.argwhere(b2):
            want = k if hull((int(pr), int(pc))) >= 0 else 0.0
            out.expect(abs(res[pr, pc] - want) < (1.0e-6 if bad.size < 400 else 1.0e-4), 'interp-after-fill',
                       lambda: 'pixel (%d,%d) is %s want %s' % (pr, pc, res[pr, pc], want))
    out.outcome = (niso, int(b2.sum()))
    return out


def run_defaults(case):
    """the documented defaults: at most 90 percent masked, a buffer of 4 pixels, isolation 1"""
    bad = mask_of(case)
    out = Out(trivial=not bad.any())
    kw = {}
    if case['fill']:
        kw = dict(fill_isolated_with_noise=True, weight=4.0)
    res = []
    for more in ({}, dict(maxfrac=0.90, buff=4, iso_buff=1)):
        k = dict(kw, **more)
        if case['fill']:
            k['rng'] = SeqRng()
        res.append(interpolate_image_at_mask(image=base_image(bad.shape), bad_msk=bad.copy(), **k))
    a, b = res
    out.expect((a is None) == (b is None) and (a is None or np.array_equal(a, b)), 'defaults',
               'not the same as with the documented defaults given')
    out.outcome = (case['fill'], a is None)
    return out


def warmup():
    run_noise({'shape': [3, 3], 'm': 1, 'maxfrac': 1.0, 'buff': 1, 'iso': 1, 'fill': True})


def spaces(tier):
    thorough = tier == 'thorough'
    shapes = [(3, 3), (3, 4)] + ([(4, 4), (5, 3)] if thorough else [])
    plane = []
    for sh in shapes:
        for mf, bf in [(1.0, 1), (0.9, 4)]:
            for m in range(2**(sh[0]*sh[1])):
                plane.append({'shape': list(sh), 'm': m, 'maxfrac': mf, 'buff': bf,
                              'iso': 1, 'fill': 0})
    rects = []
    local = []
    noise = []
    for sh in [(7, 5), (5, 8), (7, 7)] + ([(9, 8)] if thorough else []):
        for rect in cross_rects(*sh):
            for extra in ([], [[0, 1, sh[1]-1, sh[1]]]):
                rc = [rect] + extra
                for bf in (1, 2, 4):
                    rects.append({'shape': list(sh), 'rects': rc, 'maxfrac': 1.0,
                                  'buff': bf, 'iso': 1, 'fill': 0})
                for bf, iso, fl in [(1, 1, 0), (2, 1, 0), (1, 1, 1), (2, 1, 1), (3, 2, 1)]:
                    local.append({'shape': list(sh), 'rects': rc, 'maxfrac': 1.0,
                                  'buff': bf, 'iso': iso, 'fill': fl})
                for bf, iso in [(4, 1), (2, 2), (1, 1), (4, 0), (1, 2)]:
                    noise.append({'shape': list(sh), 'rects': rc, 'maxfrac': 1.0,
                                  'buff': bf, 'iso': iso, 'fill': 1})
    nmask = []
    for sh in [(3, 4)] + ([(4, 4)] if thorough else []):
        for m in range(2**(sh[0]*sh[1])):
            nmask.append({'shape': list(sh), 'm': m, 'maxfrac': 1.0, 'buff': 2, 'iso': 1,
                          'fill': 1})
    defs = []
    for fl in (0, 1):
        # 9, 18 and 19 of 20 pixels; a wide rectangle in a large image
        for sh, rect in [((4, 5), [0, 3, 0, 3]), ((4, 5), [0, 3, 0, 5]), ((2, 10), [0, 2, 1, 10]),
                         ((14, 15), [5, 9, 6, 10]), ((14, 15), [5, 8, 5, 8])]:
            defs.append({'shape': list(sh), 'rects': [rect], 'fill': fl})
        defs.append({'shape': [4, 5], 'rects': [[0, 3, 0, 5], [3, 4, 0, 3]], 'fill': fl})
        defs.append({'shape': [4, 5], 'rects': [[0, 3, 0, 5], [3, 4, 0, 4]], 'fill': fl})
    lp, ln = [], []
    for sh in ((48, 48), (30, 71)):
        for rc in large_rects(*sh):
            for bf in (2, 4):
                lp.append({'shape': list(sh), 'rects': rc, 'maxfrac': 1.0, 'buff': bf, 'iso': 1,
                           'fill': 0})
            for bf, iso in ((4, 1), (2, 2)):
                ln.append({'shape': list(sh), 'rects': rc, 'maxfrac': 1.0, 'buff': bf,
                           'iso': iso, 'fill': 1})
    return [
        Space('large-planes', lp, run_plane),
        Space('large-locality', lp + ln, run_local),
        Space('large-noise', ln, run_noise),
        Space('defaults', defs, run_defaults),
        Space('plane-all-masks', plane, run_plane),
        Space('plane-rectangles', rects, run_plane),
        Space('locality', local, run_local),
        Space('noise-rectangles', noise, run_noise),
        Space('noise-all-masks', nmask, run_noise),
    ]
