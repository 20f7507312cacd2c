"""C06: masking foreground objects in an observation bundle."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import obsmodel as om
from metadetect.masking import (
    apply_foreground_masking_corrections, apply_apodization_corrections,
)
from .c01 import SeqRng, nearby, isolated, degenerate
from .c02 import in_hull
from .c03 import sym as sym_mask
from .c05 import weight_of

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('every method x hole list x expansion x symmetrization x masked-fraction presence x '
        'weight state, and every history up to the stated depth of masking operations; each '
        'step of the real code is compared with a reference model of the bundle; states are '
        'the model states (weights, bits, masked fractions) reached')
ASSUMPTIONS = ['interpolated values are checked on planes (1e-6), for finiteness and for the '
               'exact noise scale; the triangulation itself is scipy',
               '90 degree symmetrization only for square images']
BUFF = 4


def model_step(bands, op):
    """expected effect; bands: list of snap() dicts. returns list of dicts with
    the exactly specified fields plus 'free' (interpolated pixels)"""
    dims = bands[0]['image'].shape
    new = []
    if op['op'] == 'edge':
        ap = om.edge_apodization(dims, op['ap'])
        msk = ap < 1
    else:
        hole = om.disc(dims, op['holes'])
        if op['sym']:
            hole = sym_mask(hole)
        if op['method'] == 'apodize':
            ap = om.apodization(dims, op['holes'], op['ap'])
            if op['sym']:
                n = dims[0]
                a0 = ap.copy()
                for i in range(n):
                    for j in range(n):
                        ap[i, j] = a0[i, j]*a0[j, n-1-i]
            msk = ap < 1
    for b in bands:
        e = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in b.items()}
        e['free'] = np.zeros(dims, dtype=bool)
        e['kind'] = 'none'
        if op['op'] == 'edge' or op['method'] == 'apodize':
            if msk.any():
                e['kind'] = 'apodized'
                e['image'] = e['image']*ap
                e['noise'] = e['noise']*ap
                e['bmask'][msk] |= op['bit']
                e['weight'][msk] = 0
                if 'mfrac' in e:
                    e['mfrac'][msk] = 1
        elif hole.any():
            fill = op['method'] == 'interp-noise'
            e['bmask'][hole] |= op['bit']
            e['weight'][hole] = 0
            if 'mfrac' in e:
                e['mfrac'][hole] = 1
            b2 = hole & ~isolated(hole, op['iso']) if fill else hole
            cannot = hole.all() or (fill and not (e['weight'] > 0).any())
            if not cannot and b2.any():
                cannot = degenerate(nearby(b2, BUFF) & ~b2)
            if cannot:
                e['kind'] = 'all-masked'
                e['bmask'] |= op['bit']
                e['weight'][:, :] = 0
                if 'mfrac' in e:
                    e['mfrac'][:, :] = 1
            else:
                e['kind'] = 'interpolated'
                e['free'] = hole
                e['filled'] = isolated(hole, op['iso']) if fill else np.zeros_like(hole)
                e['b2'] = b2
                if fill:
                    e['sigma'] = 1/np.sqrt(np.median(e['weight'][e['weight'] > 0]))
                e['bmask'][hole] |= op['ibit']
        if op['op'] == 'fg' and op['expand'] > 0:
            m = om.disc(dims, [[x, y, r + op['expand']] for x, y, r in op['holes']])
            if op['sym']:
                m = sym_mask(m)
            e['bmask'][m] |= op['ebit']
        new.append(e)
    return new


def apply_real(mb, op, rng):
    if op['op'] == 'edge':
        apply_apodization_corrections(mbobs=mb, ap_rad=op['ap'], mask_bit_val=op['bit'])
        return True
    hs = op['holes']
    arrs = [np.array([p[k] for p in hs], dtype='f8') for k in range(3)]
    keep = [a.copy() for a in arrs]
    apply_foreground_masking_corrections(
        mbobs=mb, xm=arrs[0], ym=arrs[1], rm=arrs[2], method=op['method'],
        mask_expand_rad=op['expand'], mask_bit_val=op['bit'],
        expand_mask_bit_val=op['ebit'], interp_bit_val=op['ibit'],
        symmetrize=bool(op['sym']), ap_rad=op['ap'], iso_buff=op['iso'], rng=rng)
    return all(np.array_equal(a, b) for a, b in zip(arrs, keep))


def compare(out, tag, exp, before, obs, planes):
    got = om.snap(obs)
    free = exp['free']
    for f in ('bmask', 'weight', 'mfrac', 'ormask'):
        out.expect((f in got) == (f in exp), tag + f + '-presence', '%s presence' % f)
        if f in exp and f in got:
            out.expect(np.array_equal(got[f], exp[f]), tag + f,
                       lambda: '%s is\n%s\nexpected\n%s' % (f, got[f], exp[f]))
    for f in ('image', 'noise'):
        out.expect(np.allclose(got[f][~free], exp[f][~free], rtol=1e-9, atol=1e-12),
                   tag + f, lambda: '%s is\n%s\nexpected (outside the hole)\n%s'
                   % (f, got[f], exp[f]))
        if exp['kind'] in ('none', 'all-masked', 'interpolated'):
            out.expect(np.array_equal(got[f][~free], before[f][~free]), tag + f + '-exact',
                       '%s changed outside the hole' % f)
        out.expect(np.isfinite(got[f]).all(), tag + f + '-finite',
                   lambda: '%s has non finite pixels\n%s' % (f, got[f]))
        if exp['kind'] == 'interpolated':
            z = got[f][exp['filled']]
            if z.size:
                k = np.sort(z/exp['sigma'])
                out.expect(np.all(k > 0.5) and np.allclose(k, np.rint(k), atol=1e-6)
                           and len(set(np.rint(k))) == len(k), tag + f + '-fill',
                           lambda: 'noise filled pixels are %s sigma' % k)
            elif planes is not None:
                good = nearby(free, BUFF) & ~free
                hull = in_hull(np.argwhere(good))
                for r, c in np.argwhere(free):
                    w = planes[f][r, c] if hull((int(r), int(c))) >= 0 else 0.0
                    out.expect(abs(got[f][r, c] - w) < 1e-6, tag + f + '-interp',
                               lambda: '%s at (%d,%d) is %s expected %s'
                               % (f, r, c, got[f][r, c], w))
    out.expect(got['jac'] == before['jac'] and got['meta'] == before['meta'] and
               np.array_equal(got['psf'], before['psf']), tag + 'other',
               'jacobian, psf or meta changed')
    out.expect(np.any(got['weight'] > 0) or not obs.ignore_zero_weight,
               tag + 'ignore_zero_weight', 'all zero weight observation would drop its pixels')
    out.expect(not np.any(got['weight'] > 0) or got['izw'] == before['izw'],
               tag + 'ignore_zero_weight-changed', 'whether pixels without weight are ignored changed')


def run(case):
    """case: dims, weights (per band), mfrac, ops (history)"""
    dims = tuple(case['dims'])
    rng = SeqRng()
    obs = [om.make_obs(dims, b, mfrac=case['mfrac'], weight=weight_of(k, dims, b))
           for b, k in enumerate(case['weights'])]
    planes = [{'image': np.array(o.image), 'noise': np.array(o.noise)} for o in obs]
    for o in obs:
        if case.get('junk'):
            # what is under the hole must not matter
            with o.writeable():
                hole = om.disc(dims, case['ops'][0]['holes'])
                o.image[hole] = -1e6
                o.noise[hole] = 1e6
    mb = om.make_mbobs(obs, case.get('per_band', 1))
    out = Out(steps=len(case['ops']))
    kinds = []
    for k, op in enumerate(case['ops']):
        before = [om.snap(o) for ol in mb for o in ol]
        exp = model_step(before, op)
        ok = apply_real(mb, op, rng)
        out.expect(ok, 'step%d-holes-modified' % k, 'the hole list was modified')
        for i, (e, b, o) in enumerate(zip(exp, before, [o for ol in mb for o in ol])):
            compare(out, 'step%d-' % k, e, b, o,
                    planes[i] if k == 0 and op['op'] == 'fg' and
                    op['method'] == 'interp' else None)
            kinds.append(e['kind'])
        out.states.append(repr([(o.weight.tolist(), o.bmask.tolist(),
                                 o.mfrac.tolist() if o.has_mfrac() else None)
                                for ol in mb for o in ol]))
    out.outcome = (tuple(kinds), out.states[-1] if out.states else None)
    out.trivial = all(k == 'none' for k in kinds)
    return out


def run_bad_method(case):
    obs = [om.make_obs((5, 5), b) for b in range(2)]
    mb = om.make_mbobs(obs)
    before = [om.snap(o) for o in obs]
    out = Out(outcome=case['method'])
    op = dict(op='fg', method=case['method'], holes=[[2, 2, 1.5]], sym=0, ap=0.5, bit=8,
              ebit=16, ibit=32, expand=1, iso=1)
    try:
        apply_real(mb, op, SeqRng())
        out.bad('accepted', 'unknown method accepted')
    except RuntimeError:
        pass
    for b, o in zip(before, obs):
        a = om.snap(o)
        out.expect(all(np.array_equal(a[f], b[f]) for f in om.FIELDS), 'modified',
                   'the observations were modified by a rejected call')
    return out


def warmup():
    op = dict(op='fg', method='interp-noise', holes=[[2, 2, 1.5]], sym=0, ap=0.5, bit=8,
              ebit=16, ibit=32, expand=1, iso=1)
    for m in ('interp-noise', 'apodize'):
        run({'dims': [6, 6], 'weights': ['full'], 'mfrac': 1, 'ops': [dict(op, method=m),
             {'op': 'edge', 'ap': 0.5, 'bit': 4}]})


def fg(method, holes, sym=0, expand=0, ap=0.5, iso=1, bit=8):
    return dict(op='fg', method=method, holes=holes, sym=sym, ap=ap, bit=bit, ebit=16,
                ibit=32, expand=expand, iso=iso)


def spaces(tier):
    thorough = tier == 'thorough'
    methods = ['interp', 'interp-noise', 'apodize']
    kinds = ['full', 'zero', 'center', 'border', 'varied', 'faint']
    holess = [[], [[3, 2, 1.5]], [[0, 0, 2.25]], [[-2, 2, 1.5]], [[-3, 1, 3.5]],
              [[4, 4, 2.5], [1, 5, 1.25]], [[2.5, 2.5, 20]], [[3, 3, 4.75]],
              [[-1, 3, 6.5]], [[2, 9, 1], [9, 2, 2]]]
    one = []
    for d in [(6, 6), (5, 8), (8, 5)]:
        for m, hs, ex, mf in itertools.product(methods, holess, (0, 1.5), (0, 1)):
            for s in ((0, 1) if d[0] == d[1] else (0,)):
                for iso in ((1, 2) if m == 'interp-noise' else (1,)):
                    for k in kinds:
                        one.append({'dims': list(d), 'weights': [k], 'mfrac': mf, 'junk': 1,
                                    'ops': [fg(m, hs, s, ex, 0.5, iso)]})
                    if thorough or (ex == 0 and mf == 1):
                        for k1, k2 in [('full', 'zero'), ('zero', 'full'),
                                       ('border', 'varied'), ('center', 'full')]:
                            one.append({'dims': list(d), 'weights': [k1, k2], 'mfrac': mf,
                                        'junk': 1, 'ops': [fg(m, hs, s, ex, 0.5, iso)]})
    # histories
    ops = [
        {'op': 'edge', 'ap': 0.25, 'bit': 4},
        fg('interp', [[3, 2, 1.5]]), fg('interp-noise', [[4, 4, 2.25]], expand=1),
        fg('apodize', [[1, 5, 2.5]], expand=1.5), fg('interp', [[3, 3, 20]]),
        fg('apodize', [[-2, -2, 1]], expand=3, bit=64),
        fg('interp-noise', [[2.5, 3, 4.0]], sym=1),
    ]
    depth = 4 if thorough else 3
    hist = []
    for n in range(1, depth+1):
        for seq in itertools.product(range(len(ops)), repeat=n):
            for wk in (['full', 'varied'], ['border', 'zero']):
                hist.append({'dims': [6, 6], 'weights': wk, 'mfrac': 1,
                             'ops': [ops[i] for i in seq]})
    multi = []
    for m, hs, ex, k in itertools.product(methods, holess, (0, 1.5), kinds):
        for n, ws in ((2, [k, 'full', 'varied', k]), (3, ['full', k, 'border'])):
            multi.append({'dims': [6, 7], 'weights': ws, 'mfrac': 1, 'per_band': n,
                          'ops': [fg(m, hs, 0, ex)]})
    # six bands, larger images, many objects, small expansions
    large = []
    for d, m, w, n, ex in itertools.product(
            ((30, 30), (21, 44)), methods,
            (('varied',), ('full', 'varied', 'full', 'border', 'center', 'faint')), (1, 6, 25),
            (0.25, 4)):
        hs = [[(17*k) % 53 - 4.25, (29*k) % 41 - 4.5, 1.25 + (7*k) % 4] for k in range(n)]
        large.append({'dims': list(d), 'weights': list(w), 'mfrac': 1, 'junk': 1,
                      'ops': [fg(m, hs, 0, ex, bit=2**20)]})
    bad = [{'method': m} for m in ('', 'Interp', 'noise', 'interp_noise', 'apodise')]
    return [Space('one-step', one, run), Space('several-observations', multi, run),
            Space('histories', hist, run), Space('large', large, run),
            Space('bad-method', bad, run_bad_method)]
