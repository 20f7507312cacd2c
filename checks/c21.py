"""C21: colour dependent measurement and independence of the measurements of a run."""
import itertools
import numpy as np
import ngmix
from ngmix import env
from mc.core import Space, Out, bfs_histories
from mc import mdmodel as mm
from metadetect.metadetect import do_metadetect, Metadetect

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = ('every history of band combinations measured in one run (up to the depth bound) compared '
        'with fresh runs of each alone, and every assignment of colour keys to objects compared '
        'with plain runs on the observations of that colour; states are the sets of (key, bands) '
        'already measured; non-trivial: at least one detection')
ASSUMPTIONS = ['metacalibration and detection are deterministic stand-ins',
               'colour dependent observations have the geometry of the original ones and can be '
               'metacalibrated']
DIMS = (18, 16)
OK = dict(state='ok', mf='some', nodet='none')
HOLES = dict(state='holes', mf='some', nodet='some')
NOMF = dict(state='ok', mf='none', nodet='some')
B3 = [NOMF, OK, HOLES]
MODELS = {
    'wmom': {'model': 'wmom', 'weight': {'fwhm': 1.2}},
    'reg': {'model': 'pgauss', 'weight': {'fwhm': 2.0, 'fwhm_reg': 0.8}},
    'nosym': {'model': 'wmom', 'weight': {'fwhm': 1.2}, 'symmetrize': False},
    'two': {'fitters': [{'model': 'wmom', 'weight': {'fwhm': 1.2}},
                        {'model': 'am', 'symmetrize': False}]},
    # colours come from the first of several fitters with fluxes
    'fluxes': {'fitters': [{'model': 'pgauss', 'weight': {'fwhm': 2.0}, 'symmetrize': False},
                           {'model': 'wmom', 'weight': {'fwhm': 1.2}},
                           {'model': 'ksigma', 'weight': {'fwhm': 2.5}}]},
}


def make_cfg(case):
    cfg = mm.deep(MODELS[case.get('fit', 'wmom')])
    cfg['meds'] = dict(mm.MEDS)
    cfg['metacal'] = {'psf': 'gauss', 'types': case.get('types', ['noshear', '1p'])}
    if case.get('uber'):
        cfg['meds']['weight_type'] = 'uberseg'
    return cfg


def plan_of(case):
    rows = case['rows']

    def plan(t, det):
        return rows[:len(rows) - (1 if t == '1p' and len(det) == 1 else 0)]
    return plan


def stack(results, types):
    out = {}
    for t in types:
        parts = [r[t] for r in results if r is not None and r[t] is not None]
        out[t] = np.hstack(parts) if parts else None
    return out


def run_hist(case):
    """the combinations of one run do not influence each other"""
    cfg = make_cfg(case)
    types = cfg['metacal']['types']
    shear = [list(c[0]) for c in case['combos']]
    det = [list(c[1]) for c in case['combos']]
    out = Out(steps=len(shear), trivial=not case['rows'])
    bands = [B3[i % 3] for i in range(case.get('nband', 3))]
    mb = mm.make_mbobs(DIMS, bands)
    e = mm.Env(mb, cfg, plan_of(case))
    e.expect_dets(det)
    color = {}
    if case['color']:
        color = dict(color_key_func=lambda flux: 'k', color_dep_mbobs={'k': mb})

    def fresh(s, d):
        b = mm.make_mbobs(DIMS, bands)
        kw = dict(color)
        if kw:
            kw['color_dep_mbobs'] = {'k': b}
        return do_metadetect(cfg, b, np.random.RandomState(3), shear_band_combs=s,
                             det_band_combs=d, **kw)
    with env.use(e):
        md = Metadetect(cfg, mb, np.random.RandomState(3), shear_band_combs=shear,
                        det_band_combs=det, **color)
        md.go()
        got = mm.deep(md.result)
        singles = [fresh([s], [d]) for s, d in zip(shear, det)]
        exp = stack(singles, types)
        out.expect(mm.same(got, exp), 'combos', 'the run is not the concatenation of runs with '
                   'one combination each')
        md.go()
        out.expect(mm.same(md.result, got), 'again', 'running again gives another result')
        rev = fresh(shear[::-1], det[::-1])
        out.expect(mm.same(rev, stack(singles[::-1], types)), 'order',
                   'the order of the combinations matters')
    out.expect(e.unknown == 0, 'detection-input', 'unexpected detection image')
    seen = []
    for c in case['combos']:
        seen.append(tuple(sorted(c[0])))
        out.states.append((case['color'], tuple(sorted(set(seen)))))
    out.outcome = [(t, None if got[t] is None else len(got[t])) for t in types]
    return out


def dep_mbobs(mb, which):
    """observations as they look for an object of some colour"""
    if which == 'same':
        return mb
    new = mb.copy()
    fac = {'copy': 1.0, 'red': 1.25, 'blue': 0.5}[which]
    for b, ol in enumerate(new):
        for o in ol:
            if which == 'copy':
                continue
            o.set_image(o.image*(fac + 0.1*b))
            o.set_weight(o.weight/(fac + 0.1*b)**2)
            o.set_bmask((np.array(o.bmask) | (1 << (10 if which == 'red' else 11))))
            o.psf = ngmix.Observation(np.array(o.psf.image)**fac, jacobian=o.psf.jacobian,
                                      weight=np.array(o.psf.weight), meta=dict(o.psf.meta))
    return new


def run_color(case):
    cfg = make_cfg(case)
    types = cfg['metacal']['types']
    bands = [B3[i % 3] for i in range(case['nband'])]
    mb = mm.make_mbobs(DIMS, bands)
    nb = len(bands)
    keys = sorted({k for k in case['keys'] if k is not None})
    dep = {k: dep_mbobs(mb, k) for k in keys} or {'unused': mb}
    sources = [mb] + [dep[k] for k in keys]
    snaps = [mm.snap(s) for s in sources]
    shear = case['shear'] or [list(range(nb))]
    det = [list(range(nb))]*len(shear)
    plan = plan_of(case)
    envs = [mm.Env(s, cfg, plan) for s in sources]
    for e in envs:
        e.expect_dets(det)
    e = envs[0]
    # plain runs
    out = Out(steps=len(case['keys'])*len(types), trivial=not case['rows'])
    plain = {}
    for name, s, ev in zip([None] + keys, sources, envs):
        with env.use(ev):
            plain[name] = do_metadetect(cfg, s, np.random.RandomState(3),
                                        shear_band_combs=mm.deep(shear))
        out.expect(ev.unknown == 0, 'plain-detection-input', 'unexpected detection image')
    kind = mm.fitters_of(cfg)[0][1].kind
    asked = []
    # a function of the fluxes: the key of the object with these fluxes
    fluxes = []
    for t in types:
        d = plain[None][t]
        n = 0 if d is None else len(d)//len(shear)
        for s in range(len(shear)):
            for i in range(n):
                fluxes.append((np.array(d[kind + '_band_flux'][s*n + i]), t, s, i))

    def keyfunc(flux):
        for f, t, s, i in fluxes:
            if np.allclose(f, flux, rtol=1e-10, atol=0, equal_nan=True):
                asked.append((t, i))
                return case['keys'][i]
        asked.append(None)
        return None
    with env.use(e):
        got = do_metadetect(cfg, mb, np.random.RandomState(3),
                            shear_band_combs=mm.deep(shear), color_key_func=keyfunc,
                            color_dep_mbobs=dep)
    out.expect(e.unknown == 0, 'detection-input', 'unexpected detection image')
    out.expect(None not in asked, 'fluxes', 'the colour was computed from other fluxes')
    out.expect(len(asked) == len(fluxes), 'asked', 'colour asked %d times for %d objects'
               % (len(asked), len(fluxes)))
    out.expect(set(got) == set(types), 'types', 'types %s' % sorted(got))
    for t in types:
        d = plain[None][t]
        if d is None:
            out.expect(got[t] is None, 'empty', 'nothing was detected in %s' % t)
            continue
        if not out.expect(got[t] is not None and len(got[t]) == len(d), 'nrows', '%s: %s rows, '
                          'expected %d' % (t, None if got[t] is None else len(got[t]), len(d))):
            continue
        n = len(d)//len(shear)
        for s in range(len(shear)):
            for i in range(n):
                k = s*n + i
                want = plain[case['keys'][i]][t][k:k+1]
                have = got[t][k:k+1]
                for nm in want.dtype.names:
                    ok = np.array_equal(want[nm], have[nm], equal_nan=True) \
                        if want[nm].dtype.kind == 'f' else np.array_equal(want[nm], have[nm])
                    out.expect(ok, 'column:' + nm, '%s object %d of colour %s: %s is %s, '
                               'expected %s' % (t, i, case['keys'][i], nm, have[nm], want[nm]))
    for s, before in zip(sources, snaps):
        out.expect(mm.same_snap(mm.snap(s), before), 'input-modified', 'observations modified')
    out.outcome = str((case['keys'], case['shear'], [len(plain[None][t]) if plain[None][t]
                       is not None else None for t in types]))
    out.states = [('color', tuple(str(k) for k in case['keys'][:i])) for i in
                  range(len(case['keys'])+1)]
    return out


def run_args(case):
    out = Out(outcome=str(case))
    mb = mm.make_mbobs(DIMS, [OK])
    cfg = make_cfg(case)
    if case.get('config'):
        cfg.update(mm.deep(case['config']))
    for k in case.get('drop', ()):
        cfg.pop(k, None)
    kw = {}
    if case.get('func'):
        kw['color_key_func'] = lambda f: None
    if case.get('dep'):
        kw['color_dep_mbobs'] = {'a': mb}
    if 'shear' in case:
        kw.update(shear_band_combs=case['shear'], det_band_combs=case['det'])
    e = mm.Env(mb, make_cfg(case), lambda t, d: [0])
    e.expect_dets([[0]])
    try:
        with env.use(e):
            res = do_metadetect(cfg, mb, np.random.RandomState(3), **kw)
        err = None
        if 'shear' in case and case['ok']:
            n = len(case['shear'] or [0])
            out.expect(all(len(d) == n for d in res.values()), 'combinations-lost',
                       '%d combinations gave %s rows' % (n, [len(d) for d in res.values()]))
    except (RuntimeError, ValueError, AssertionError, KeyError) as ex:
        err = type(ex).__name__
    out.expect((err is None) == case['ok'], 'accepted' if err is None else 'rejected',
               'error %s' % err)
    return out


def spaces(tier):
    th = tier == 'thorough'
    hist = []
    ops = [((0,), (0,)), ((0, 1, 2), (0, 1, 2)), ((2, 1), (1,)), ((1, 2), (0, 2)), ((2,), (2,))]
    for h in bfs_histories(ops, 4 if th else 3):
        if not h:
            continue
        for color in (0, 1):
            hist.append(dict(combos=[[list(s), list(d)] for s, d in h], color=color,
                             rows=[0, 1]))
    hist += [dict(combos=[[[0], [0]], [[1, 0], [1]]], color=c, rows=r) for c in (0, 1)
             for r in ([], [2], [0, 1, 3])]
    # one run with as many combinations as bands, and more bands than usual
    for nb in (5, 6):
        c1 = [[[k], [k, (k+1) % nb]] for k in range(nb)]
        c2 = [[[nb-1, k], [0]] for k in range(nb-1)] + [[list(range(nb)), [3, nb-1]]]
        for combos in (c1, c2):
            for c in (0, 1):
                hist.append(dict(combos=combos, color=c, rows=[0, 1], nband=nb))
    col = []
    names = [None, 'same', 'copy', 'red', 'blue']
    for n in (1, 2, 3):
        for keys in itertools.product(names, repeat=n):
            for nb in ((1, 2) if n < 3 else (2,)):
                for sh in (None, [[0]], [[1, 0], [0]]):
                    if sh and len(sh) > 1 and (nb < 2 or (n == 3 and not th)):
                        continue
                    col.append(dict(keys=list(keys), rows=[0, 1, 2][:n], nband=nb, shear=sh))
    for nb in (4, 6):
        for keys in itertools.product(names, repeat=2):
            for sh in (None, [[nb-1, 0], [3]]):
                col.append(dict(keys=list(keys), rows=[0, 1], nband=nb, shear=sh))
    for n in (9, 20):
        for q in (1, 2, 3):
            # objects with the same fluxes have the same colour
            col.append(dict(keys=[names[(q*(k % 5) + q//3) % 5] for k in range(n)],
                            rows=[k % 5 for k in range(n)], nband=2, shear=None))
    for fit in MODELS:
        for ub in (0, 1):
            for keys in itertools.product([None, 'copy', 'red'], repeat=2):
                col.append(dict(keys=list(keys), rows=[0, 4], nband=2, shear=None, fit=fit,
                                uber=ub))
    args = [dict(func=a, dep=b, ok=a == b) for a in (0, 1) for b in (0, 1)]
    args += [dict(fit='two', config={k: v}, ok=False) for k, v in
             (('model', 'wmom'), ('weight', {'fwhm': 1.2}), ('symmetrize', True),
              ('coadd', False))]
    args += [dict(config={'model': m}, ok=False) for m in ('', 'foo', 'WMOM', 'moments')]
    args += [dict(drop=[k], ok=False) for k in ('metacal', 'meds')]
    args += [dict(func=1, dep=1, config={'model': m}, ok=False) for m in ('am', 'admom', 'gauss')]
    args += [dict(fit=f, ok=True) for f in MODELS]
    for n, m in itertools.product(range(1, 4), range(0, 4)):
        args.append(dict(shear=[[0]]*n, det=[[0]]*m, ok=n == m))
    args += [dict(shear=None, det=[[0]]*m, ok=m == 1) for m in range(4)]
    args += [dict(shear=[[0]]*n, det=d, ok=True) for n in range(1, 4)
             for d in (None, 'shear_bands')]
    return [Space('combination-histories', hist, run_hist), Space('colours', col, run_color),
            Space('arguments', args, run_args)]
