"""C18: putting the results of several fitters side by side."""
import itertools
import numpy as np
from mc.core import Space, Out
from metadetect.fitting import combine_fit_res, get_wavg_output_struct
from metadetect import procflags as pf

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('every list of up to three fitter results over the menu (absent, 0..3 rows, one or two '
        'bands, same or different shear bands); non-trivial: at least two results')
ASSUMPTIONS = ['distinct fitters have distinct names']


def make(model, n, nband, shear):
    rows = []
    for k in range(n):
        d = get_wavg_output_struct(nband, model, shear_bands=shear)
        for i, nm in enumerate(d.dtype.names):
            if nm != 'shear_bands':
                d[nm] = (100*len(model) + 10*i + k) if 'flags' in nm else \
                    len(model) + 0.5*i + 0.01*k
        rows.append(d)
    return np.hstack(rows) if n else np.zeros(0, dtype=get_wavg_output_struct(
        nband, model, shear_bands=shear).dtype)


def set_rows(r, labels):
    # rows of different band combinations, as in a result of a complete run
    r = r.copy()
    r['shear_bands'] = labels
    return r


def run(case):
    res = []
    for i, it in enumerate(case['res']):
        if it is None:
            res.append(None)
        else:
            n, nb, sh = it
            if isinstance(sh, str):
                # one letter per row: the shear bands of that row
                res.append(set_rows(make('m' + 'x'*i, n, nb, [0]), list(sh)))
            else:
                res.append(make('m' + 'x'*i, n, nb, sh))
    keep = [None if r is None else r.copy() for r in res]
    out = Out(trivial=len(res) < 2)
    ns = {0 if r is None else r.size for r in res}
    lens = [None if r is None else r.size for r in res]
    labels = {tuple(r['shear_bands']) for r in res if r is not None and r.size}
    bad = len(ns) > 1 or len(labels) > 1 and len(res) > 1
    try:
        c = combine_fit_res(res)
        err = False
    except Exception:
        err = True
        c = None
    for r, k in zip(res, keep):
        out.expect(r is None and k is None or np.array_equal(r, k), 'input-modified', 'modified')
    out.outcome = (err, None if c is None else (c.size, len(c.dtype.names)))
    if len(res) == 1:
        out.expect(not err and (c is None) == (res[0] is None), 'single', 'single result')
        if c is not None:
            out.expect(np.array_equal(c, res[0]), 'single', 'single result changed')
        return out
    if bad:
        out.expect(err, 'accepted', 'inconsistent results %s %s combined' % (lens, labels))
        return out
    if not out.expect(not err, 'rejected', 'consistent results %s rejected' % lens):
        return out
    if all(r is None for r in res):
        out.expect(c is None, 'none', 'expected None')
        return out
    n = ns.pop()
    if not out.expect(c is not None and c.size == n, 'length', 'length %s' % c):
        return out
    for r in res:
        if r is None:
            continue
        for nm in r.dtype.names:
            out.expect(nm in c.dtype.names and c.dtype[nm] == r.dtype[nm] and
                       (n == 0 or np.array_equal(c[nm], r[nm])), 'column',
                       'column %s lost or changed' % nm)
    allnames = set().union(*[set(r.dtype.names) for r in res if r is not None])
    out.expect(set(c.dtype.names) == allnames, 'extra', 'extra columns')
    if n:
        for nm in c.dtype.names:
            if nm.endswith('_T'):
                c[nm] = -1
        for r, k in zip(res, keep):
            out.expect(np.array_equal(r, k), 'aliased', 'the result aliases an input')
    return out


def run_struct(case):
    """a fresh result row claims nothing"""
    nb, model, sh = case['nband'], case['model'], case['shear']
    d = get_wavg_output_struct(nb, model, shear_bands=sh)
    out = Out(outcome=str(case))
    out.expect(d.shape == (1,), 'shape', 'shape')
    for nm in d.dtype.names:
        if nm == 'shear_bands':
            continue
        out.expect(nm.startswith(model + '_'), 'name', 'column %s' % nm)
        if 'flags' in nm:
            out.expect(np.all(d[nm] == pf.NO_ATTEMPT), 'flags', '%s is %s' % (nm, d[nm]))
        else:
            out.expect(np.all(np.isnan(d[nm])), 'nan', '%s is %s' % (nm, d[nm]))
    for nm in ('band_flux', 'band_flux_err', 'band_flux_flags'):
        shp = d[model + '_' + nm].shape
        out.expect(shp == ((1, nb) if nb > 1 else (1,)), 'bands', '%s shape %s' % (nm, shp))
    if sh is not None:
        out.expect(d['shear_bands'][0] == ''.join(str(s) for s in sorted(sh)), 'label', 'label')
    return out


def spaces(tier):
    items = [None] + [(n, nb, sh) for n in (0, 1, 3) for nb in (1, 2)
                      for sh in ([0], [1, 0], [0, 1], [2])]
    lists = [dict(res=[x]) for x in items]
    lists += [dict(res=list(t)) for t in itertools.product(items, repeat=2)]
    it3 = items if tier == 'thorough' else [None, (0, 1, [0]), (1, 2, [0, 1]), (3, 2, [1, 0]),
                                            (3, 1, [0, 1]), (3, 2, [2])]
    lists += [dict(res=list(t)) for t in itertools.product(it3, repeat=3)]
    st = [dict(nband=nb, model=m, shear=list(sh) if sh is not None else None)
          for nb in range(0, 6) for m in ('wmom', 'am', 'pgauss_reg0.80')
          for sh in [None] + [p for k in range(1, 4) for p in itertools.permutations(range(4), k)]]
    top = 4 if tier == 'thorough' else 3
    rows = [dict(res=[(n, 1, ''.join(a)), (n, 2, ''.join(b))] + extra)
            for n in range(1, top+1) for a in itertools.product('012', repeat=n)
            for b in itertools.product('012', repeat=n)
            for extra in ([], [(n, 1, ''.join(a))])]
    return [Space('lists', lists, run), Space('rows-of-different-bands', rows, run), Space('fresh-rows', st, run_struct)]
