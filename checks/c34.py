"""C34: the unit of the fluxes does not matter."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import meta
from mc import mdmodel as mm
from metadetect.masking import apply_foreground_masking_corrections, apply_apodization_corrections

PROPERTY = 'C34'
LEVEL = 'exploration'
RULE = ('every run of the menu (fits x bands states x band combinations, and LSST runs over bands, '
        'deblenders, sky subtraction, reconvolution) with every power of two as flux unit; compared '
        'with the run in the original unit; non-trivial: there are rows with finite fluxes')
ASSUMPTIONS = ['powers of two, so that rounding is the same; noise and weights are rescaled with '
               'the images']


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind != 'f':
        return np.array_equal(a, b)
    return np.allclose(a, b, rtol=2e-6, atol=1e-9, equal_nan=True)


def run(case):
    k = 2.0**case['power']
    ref = meta.perform(case)
    got = meta.perform(case, k=k)
    out = Out(steps=2, trivial=True)
    if not out.expect(set(ref) == set(got), 'keys', lambda: '%s and %s' % (list(ref), list(got))):
        return out
    rows = []
    for t in ref:
        a, b = ref[t], got[t]
        n, m = (None if x is None else len(x) for x in (a, b))
        rows.append(n)
        if not out.expect(n == m, 'rows', '%s: %s rows, %s in another unit' % (t, n, m)):
            continue
        if not n:
            continue
        out.expect(a.dtype == b.dtype, 'columns', 'other columns')
        for c in a.dtype.names:
            f = k if meta.is_flux(c) else 1.0
            x = a[c]*f if f != 1 else a[c]
            out.expect(close(x, b[c]), 'column:' + c, lambda: '%s %s: %s expected %s'
                       % (t, c, b[c].tolist(), x.tolist()))
            if f != 1 and np.isfinite(a[c]).any():
                out.trivial = False
    out.outcome = (case.get('fit'), case.get('run'), tuple(rows))
    return out


def run_masks(case):
    """masking with noise filling"""
    res = []
    k = 2.0**case['power']
    for f in (1.0, k):
        mb = mm.make_mbobs((18, 16), [meta.STATES[s] for s in case['bands']])
        if f != 1:
            meta.scaled(mb, f)
        if case['method'] == 'edge':
            apply_apodization_corrections(mbobs=mb, ap_rad=0.5, mask_bit_val=2**20)
        else:
            apply_foreground_masking_corrections(
                mbobs=mb, xm=np.array([5.0, 12.0]), ym=np.array([4.0, 11.0]),
                rm=np.array([3.0, 3.5]), method=case['method'], mask_expand_rad=1.0,
                mask_bit_val=2**20, expand_mask_bit_val=2**21, interp_bit_val=2**22,
                symmetrize=False, ap_rad=0.5, iso_buff=1, rng=np.random.RandomState(9))
        res.append([{n: np.array(getattr(o, n)) for n in ('image', 'noise', 'weight', 'bmask',
                                                          'ormask')}
                    for ol in mb for o in ol])
    out = Out(steps=2, outcome=case['method'])
    for a, b in zip(*res):
        for n, f in (('image', k), ('noise', k), ('weight', 1/k**2), ('bmask', 1), ('ormask', 1)):
            x = a[n]*f
            # gradients of the interpolation are found iteratively by scipy, with a stopping rule
            # that is absolute (1e-6) for values below one
            tol = 1e-5*np.abs(x).max()
            if 'interp' in case['method'] and n in ('image', 'noise'):
                tol += 2e-5*max(1.0, k)
            out.expect(np.allclose(x, b[n], rtol=1e-5, atol=tol), 'mask-' + n,
                       '%s differs in another unit' % n)
    return out


def warmup():
    run({'bands': ['ok', 'holes'], 'fit': 'wmom', 'shear': None, 'det': None, 'power': 1})
    run_masks({'bands': ['ok'], 'method': 'interp-noise', 'power': 1})


def spaces(tier):
    th = tier == 'thorough'
    powers = (-20, -8, -1, 1, 3, 10, 20) if th else (-18, 17)
    core, lsst, masks = [], [], []
    for p in powers:
        for fit in meta.FITS:
            for uber in (0, 1):
                for bs, combos in ((['ok'], [(None, None)]),
                                   (['holes', 'ok'], [(None, None), ([[1], [0, 1]], [[0], [1, 0]])]),
                                   (['nomf', 'ok', 'holes'], [([[0, 2]], [[1]]), ([[2], [1]], None)]),
                                   (['ok', 'flagged'], [(None, [[0]])])):
                    for s, d in combos:
                        if s is not None and d is None:
                            d = [list(range(len(bs)))]*len(s)
                        if d is not None and s is None:
                            s = [list(range(len(bs)))]*len(d)
                        core.append(dict(bands=bs, fit=fit, shear=s, det=d, uber=uber, power=p))
        for fit in ('wmom', 'reg'):
            for cut in (0.0, 30.0, 60.0, 1e3):
                core.append(dict(bands=['ok', 'holes'], fit=fit, shear=None, det=None, color=cut,
                                 power=p))
        for c in meta.lsst_menu(th):
            lsst.append(dict(c, power=max(-18, min(18, p))))
        for m in ('interp', 'interp-noise', 'apodize', 'edge'):
            for bs in itertools.product(meta.STATES, repeat=2):
                masks.append({'bands': list(bs), 'method': m, 'power': p})
    return [Space('runs', core, run), Space('lsst-runs', lsst, run),
            Space('masking', masks, run_masks)]
