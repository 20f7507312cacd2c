"""C17: symmetrizing the weights of an object."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import obsmodel as om
from metadetect.fitting import symmetrize_obs_weights
from .c14 import symm

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('every zero-weight pattern of 3x3 and (thorough) 4x4 stamps and every pair of zero '
        'pixels of larger ones; non-trivial: at least one pixel without weight')
ASSUMPTIONS = ['square stamps']


def run(case):
    n = case['n']
    r, c = np.mgrid[:n, :n]
    w = 1.0 + r*n + c
    if 'm' in case:
        for k in range(n*n):
            if (case['m'] >> k) & 1:
                w[k // n, k % n] = case['v']
    else:
        for i, j in case['px']:
            w[i, j] = case['v']
    o = om.make_obs((n, n), 0, weight=w)
    o.ignore_zero_weight = bool(np.any(w > 0))
    before = om.snap(o)
    s = symmetrize_obs_weights(o)
    out = Out(trivial=not np.any(w <= 0))
    a = om.snap(o)
    out.expect(all(np.array_equal(a[k], before[k]) for k in om.FIELDS), 'input-modified',
               'input modified')
    exp = symm(w) if np.any(w <= 0) else w
    got = np.array(s.weight)
    # pixels that had no weight stay without weight
    out.expect(np.array_equal(np.where(got > 0, got, 0), np.where(exp > 0, exp, 0)), 'weight',
               lambda: 'weight\n%s\nexpected\n%s' % (got, exp))
    for k in (1, 2, 3):
        out.expect(np.array_equal(np.rot90(got > 0, k=k), got > 0), 'symmetric',
                   'not symmetric under rotation')
    b = om.snap(s)
    for f in ('image', 'noise', 'bmask', 'mfrac', 'ormask'):
        out.expect(np.array_equal(b[f], before[f]), f, '%s changed' % f)
    out.expect(b['jac'] == before['jac'] and np.array_equal(b['psf'], before['psf']), 'other',
               'jacobian or psf changed')
    with s.writeable():
        s.image[:, :] = 0
        s.ignore_zero_weight = False
        s.weight[:, :] = 9
    a = om.snap(o)
    out.expect(all(np.array_equal(a[k], before[k]) for k in om.FIELDS), 'aliased',
               'the result aliases the input')
    # doing it twice changes nothing
    out.outcome = exp.tolist()
    t = symmetrize_obs_weights(symmetrize_obs_weights(o))
    out.expect(np.array_equal(t.weight > 0, exp > 0), 'idempotent', 'not idempotent')
    return out


def spaces(tier):
    cases = [dict(n=3, m=m, v=v) for m in range(512) for v in (0.0, -1.0)]
    cases += [dict(n=2, m=m, v=0.0) for m in range(16)]
    if tier == 'thorough':
        cases += [dict(n=4, m=m, v=0.0) for m in range(65536)]
    else:
        cases += [dict(n=4, m=m, v=0.0) for m in range(0, 65536) if bin(m).count('1') <= 3]
    for n in (5, 6, 7):
        px = list(itertools.product(range(n), repeat=2))
        cases += [dict(n=n, px=[list(p), list(q)], v=0.0)
                  for p, q in itertools.combinations(px, 2)]
    return [Space('patterns', cases, run)]
