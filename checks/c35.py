"""C35: the order of the bands in the data does not matter."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import meta

PROPERTY = 'C35'
LEVEL = 'exploration'
RULE = ('every run of the menu with every permutation of the bands of the data (and of the band '
        'combinations with it); compared with the run in the original order; non-trivial: a '
        'permutation other than the identity and there are rows')
ASSUMPTIONS = ['quantities agree to 1e-8 (core) or single precision (LSST), since sums are taken '
               'in another order']
SKIP = ('shear_bands', 'det_bands')


def close(a, b, lsst):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind != 'f':
        return np.array_equal(a, b)
    if lsst:
        return np.allclose(a, b, rtol=5e-4, atol=2e-5, equal_nan=True)
    return np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True)


def names(s, to):
    return ''.join(sorted(str(to[int(c)]) for c in s)) if s.isdigit() else s


def run(case):
    perm = case['perm']
    nb = len(perm)
    ref = meta.perform(case)
    got = meta.perform(case, perm=perm)
    ls = 'run' in case
    out = Out(steps=2, trivial=True)
    if not out.expect(set(ref) == set(got), 'keys', lambda: '%s and %s' % (list(ref), list(got))):
        return out
    rows = []
    for t in ref:
        a, b = ref[t], got[t]
        n, m = (None if x is None else len(x) for x in (a, b))
        rows.append(n)
        if not out.expect(n == m, 'rows', '%s: %s rows, %s in another order' % (t, n, m)):
            continue
        if not n:
            continue
        out.trivial = perm == sorted(perm)
        out.expect(a.dtype == b.dtype, 'columns', 'other columns')
        for c in a.dtype.names:
            if c in SKIP:
                if not ls:
                    x = [names(s, {i: i for i in range(nb)}) for s in a[c]]
                    y = [names(s, dict(enumerate(perm))) for s in b[c]]
                    out.expect(x == y, 'column:' + c, lambda: '%s %s: %s expected %s'
                               % (t, c, y, x))
                continue
            x, y = a[c], b[c]
            if 'band_flux' in c and x.ndim == 2:
                x = x[:, perm]
            out.expect(close(x, y, ls), 'column:' + c, lambda: '%s %s: %s expected %s'
                       % (t, c, y.tolist(), x.tolist()))
    out.outcome = (case.get('fit'), case.get('run'), tuple(rows))
    return out


def warmup():
    run({'bands': ['ok', 'holes'], 'fit': 'wmom', 'shear': None, 'det': None, 'perm': [1, 0]})


def spaces(tier):
    th = tier == 'thorough'
    core, lsst = [], []
    menus = [(['holes', 'ok'], [(None, None), ([[1], [0, 1]], [[0], [1, 0]])]),
             (['nomf', 'ok', 'holes'], [([[0, 2]], [[1]]), ([[2], [1]], [[0, 1, 2]]*2)]),
             (['ok', 'flagged'], [([[0, 1]], [[0]]), ([[0], [1]], [[1], [0]])])]
    if th:
        menus += [([a, b, c], [([[0]], [[1, 2]]), ([[0, 1, 2]], [[2]]), ([[2, 0], [1]], [[0], [1, 2]])])
                  for a, b, c in itertools.product(meta.STATES, repeat=3)]
    for bs, combos in menus:
        for perm in itertools.permutations(range(len(bs))):
            if list(perm) == sorted(perm):
                continue
            for fit in meta.FITS:
                for uber in (0, 1):
                    for s, d in combos:
                        core.append(dict(bands=bs, fit=fit, shear=s, det=d, uber=uber,
                                         perm=list(perm)))
                        if fit == 'wmom' and uber == 0:
                            for cut in (30.0, 60.0):
                                core.append(dict(bands=bs, fit=fit, shear=s, det=d, color=cut,
                                                 perm=list(perm)))
    # more bands: reversed, rotated and with two bands swapped
    for nb in (4, 5, 6):
        bs = [('nomf', 'ok', 'holes')[i % 3] for i in range(nb)]
        idx = list(range(nb))
        for perm in (idx[::-1], idx[1:] + idx[:1], idx[:-2] + [nb-1, nb-2], idx[2:] + idx[:2]):
            for fit in meta.FITS:
                for s, d in ((None, None), ([[nb-1, 0]], [[3, 1]]),
                             ([[k] for k in idx], [[nb-1-k, 0][:1 + (k != nb-1)] for k in idx])):
                    core.append(dict(bands=bs, fit=fit, shear=s, det=d, uber=0, perm=perm))
    for c in meta.lsst_menu(th):
        for perm in itertools.permutations(range(c['nb'])):
            if list(perm) != sorted(perm):
                lsst.append(dict(c, perm=list(perm), fixed='blend', thresh=4.0))
                if th:
                    lsst.append(dict(c, perm=list(perm), fixed='edges', thresh=4.0))
    return [Space('runs', core, run), Space('lsst-runs', lsst, run)]
