"""C11: detection image, noise, mask and stamp sizes."""
import copy
import itertools
import numpy as np
import ngmix
from ngmix import env
import sxdes
from mc.core import Space, Out
from mc import obsmodel as om
from metadetect.detect import MEDSifier
from metadetect.defaults import ALLOWED_BOX_SIZES
from .c10 import check_obj, JAC

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('every combination of band weights, masks and detection flags, and every detection '
        'answer and box configuration of the menus; what reaches the detector is captured and '
        'compared with the reference; non-trivial: at least one object or masked pixel')
ASSUMPTIONS = ['the source detector itself (sxdes) is replaced by enumerated answers',
               'every band has positive weight somewhere']

W = {'low': 1.0, 'mid': 4.0, 'hi': 25.0}
FAC = 2*np.sqrt(2*np.log(2))


def weight_map(kind, dims):
    k, v = kind.split('-')
    w = np.full(dims, W[k])
    if v == 'holes':
        w[0, :] = 0
        w[2, 3] = 0
    elif v == 'varied':
        w = w*(1 + np.arange(w.size).reshape(dims))
    elif v == 'mostly0':
        w[:] = 0
        w[1, 1] = W[k]
        w[2, 2] = 3*W[k]
        w[3, 1] = 5*W[k]
    return w


def reqsize(cfg, rows):
    if cfg['box_type'] == 'sigma_size':
        out = []
        for r in rows:
            sig = r['flux_radius']*2.0/FAC
            drad = np.ceil(sig*cfg['sigma_fac']*(1 + (1 - r['b']/r['a'])))
            out.append(max(2*int(drad), r['xmax']-r['xmin']+1, r['ymax']-r['ymin']+1))
        return out
    return [int(2*cfg['rad_fac']*max(r['iso_radius'], cfg['rad_min']) + cfg['box_padding'])
            for r in rows]


def boxsize(cfg, req):
    lo, hi = cfg['min_box_size'], cfg['max_box_size']
    req = min(max(req, lo), hi)
    for s in sorted(ALLOWED_BOX_SIZES):
        if lo <= s <= hi and s >= req:
            return s
    return hi


MED = [
    {'box_type': 'iso_radius', 'rad_min': 4, 'rad_fac': 2, 'box_padding': 2,
     'min_box_size': 32, 'max_box_size': 256},
    {'box_type': 'iso_radius', 'rad_min': 1, 'rad_fac': 1.5, 'box_padding': 0,
     'min_box_size': 4, 'max_box_size': 20},
    {'box_type': 'iso_radius', 'rad_min': 1, 'rad_fac': 2, 'box_padding': 1,
     'min_box_size': 5, 'max_box_size': 16},
    {'box_type': 'sigma_size', 'sigma_fac': 5.0, 'min_box_size': 4, 'max_box_size': 64},
    {'box_type': 'sigma_size', 'sigma_fac': 2.0, 'min_box_size': 2, 'max_box_size': 30},
]
ROWS = [
    dict(x=3.0, y=2.0, a=1.0, b=1.0, flux_radius=1.0, iso_radius=0.5),
    dict(x=0.2, y=5.9, a=2.0, b=1.0, flux_radius=2.5, iso_radius=3.0),
    dict(x=6.7, y=0.0, a=3.0, b=0.5, flux_radius=4.0, iso_radius=7.25, xmin=0, xmax=6,
         ymin=0, ymax=3),
    dict(x=4.5, y=4.5, a=1.0, b=0.9, flux_radius=0.3, iso_radius=500.0, xmin=1, xmax=5,
         ymin=0, ymax=17),
    dict(x=1.0, y=1.0, a=1.0, b=1.0, flux_radius=0.1, iso_radius=2.0, xmin=1, xmax=1,
         ymin=1, ymax=1),
]


def rows_of(idx):
    o = sxdes.make_objs([ROWS[i] for i in idx])
    return o, [{n: o[n][k] for n in ('flux_radius', 'a', 'b', 'xmin', 'xmax', 'ymin', 'ymax',
                                     'iso_radius', 'x', 'y')} for k in range(len(o))]


def run(case):
    dims = (7, 8)
    r, c = np.mgrid[:dims[0], :dims[1]]
    obs = []
    for b, wk in enumerate(case['weights']):
        bm = ((r*3 + c + b) % 5 == 0)*(1 << b) + ((r == 3) & (c == 4+b))*64
        o = om.make_obs(dims, b, weight=weight_map(wk, dims), bmask=bm.astype('i4'))
        with o.writeable():
            o.jacobian = JAC
        if case['nobmask'] == b + 1:
            o.set_bmask(None)
        obs.append(o)
    mb = om.make_mbobs(obs)
    before = [om.snap(o) for o in obs]
    objs, rows = rows_of(case['rows'])
    seg = np.zeros(dims, dtype='i4')
    for k in range(len(objs)):
        seg[k % dims[0], k % dims[1]] = k+1
    got = []

    def handler(kind, info):
        if kind == 'detect':
            got.append({k: copy.deepcopy(v) for k, v in info.items()})
            return objs.copy(), seg.copy()

    sx = None
    if case['sx']:
        sx = {'detect_thresh': 0.625, 'filter_kernel': [[1, 2], [3, 4]], 'minarea': 7}
    sx0 = copy.deepcopy(sx)
    cfg = dict(MED[case['med']])
    cfg0 = dict(cfg)
    kw = {} if case['flags'] is None else {'nodet_flags': case['flags']}
    with env.use(handler):
        m = MEDSifier(mb, sx, cfg, **kw)
    out = Out(trivial=not case['rows'] and not case['flags'])
    out.expect(sx == sx0 and cfg == cfg0, 'config-modified', 'configuration modified')
    for o, bf in zip(obs, before):
        af = om.snap(o)
        out.expect(all(np.array_equal(af[k], bf[k]) for k in om.FIELDS if k in bf),
                   'obs-modified', 'observations modified')
    out.expect(len(got) == 1, 'ndetect', 'detector called %d times' % len(got))
    g = got[0]
    # inverse variance weighted mean of the bands
    wts = np.array([np.median(o.weight[o.weight > 0]) for o in obs])
    det = sum(w*o.image for w, o in zip(wts, obs))/wts.sum()
    noise = np.sqrt(1/wts.sum())
    mask = np.zeros(dims, dtype=bool)
    for o in obs:
        if o.has_bmask():
            mask |= (o.bmask & (case['flags'] or 0)) != 0
    out.expect(np.allclose(g['image'], det, rtol=1e-10), 'image', 'detection image differs')
    out.expect(np.isclose(g['noise'], noise, rtol=1e-10), 'noise',
               lambda: 'noise %s expected %s' % (g['noise'], noise))
    gm = np.zeros(dims, dtype=bool) if g['mask'] is None else g['mask']
    out.expect(np.array_equal(np.asarray(gm, dtype=bool), mask), 'mask',
               lambda: 'mask\n%s\nexpected\n%s' % (gm, mask))
    if sx0 is None:
        out.expect(g['thresh'] == sxdes.DETECT_THRESH, 'thresh', 'default threshold')
        out.expect(set(g['config']) == set(sxdes.SX_CONFIG), 'config', 'default config')
    else:
        out.expect(g['thresh'] == 0.625, 'thresh', 'threshold %s' % g['thresh'])
        out.expect('detect_thresh' not in g['config'] and g['config']['minarea'] == 7 and
                   np.array_equal(g['config']['filter_kernel'], [[1, 2], [3, 4]]),
                   'config', lambda: 'config %s' % g['config'])
    cat = m.cat
    out.expect(cat.size == len(rows), 'ncat', 'catalogue size')
    req = reqsize(cfg, rows)
    scale = obs[0].jacobian.get_scale()
    for k in range(len(rows)):
        out.expect(cat['box_size'][k] == boxsize(cfg, req[k]), 'box', lambda: 'box size %d of '
                   'request %s with %s, expected %d' % (cat['box_size'][k], req[k], cfg,
                                                       boxsize(cfg, req[k])))
        out.expect(cat['number'][k] == k+1 and cat['id'][k] == k and cat['ncutout'][k] == 1 and
                   cat['x'][k] == objs['x'][k] and cat['y'][k] == objs['y'][k], 'row',
                   'catalogue row %d mixed up' % k)
        if cat['box_size'][k] % 2 == 0:
            for j, (q, v) in enumerate((('row', objs['y'][k]), ('col', objs['x'][k]))):
                out.expect(cat['orig_end_' + q][k, 0] == min(int(np.float32(v)) + 1 +
                           cat['box_size'][k]//2, dims[j]), 'end', 'end of the stamp')
        out.expect(np.isclose(cat['iso_radius_arcsec'][k], objs['iso_radius'][k]*scale, rtol=1e-5),
                   'iso', 'isophotal radius in arcsec')
    mlist = m.get_multiband_meds().mlist
    out.expect(len(mlist) == len(obs), 'nband', 'bands')
    if not case['nobmask']:
        for k in range(len(rows)):
            check_obj(out, '', mlist, mb, seg, k, float(objs['y'][k]), float(objs['x'][k]),
                      int(cat['box_size'][k]), k+1)
    out.outcome = (cat['box_size'].tolist() if len(rows) else [], float(noise), int(mask.sum()))
    return out


def run_badbox(case):
    out = Out(outcome=case['t'])
    mb = om.make_mbobs([om.make_obs((5, 5))])
    objs, _ = rows_of([0])

    def handler(kind, info):
        return (objs.copy(), np.zeros((5, 5), dtype='i4')) if kind == 'detect' else None
    try:
        with env.use(handler):
            MEDSifier(mb, None, dict(MED[0], box_type=case['t']))
        out.bad('accepted', 'accepted box type %r' % case['t'])
    except ValueError:
        out.checked += 1
    return out


def run_sizes(case):
    """every requested size against every box configuration"""
    lo, hi = case['lo'], case['hi']
    cfg = {'box_type': 'iso_radius', 'rad_min': 0, 'rad_fac': 0.5, 'box_padding': 0,
           'min_box_size': lo, 'max_box_size': hi}
    kind = case.get('kind', 'iso')
    reqs = list(range(1, case['n']))
    tiny = dict(x=2.0, y=2.0, flux_radius=1e-3, xmin=3, xmax=3, ymin=4, ymax=4)
    if kind != 'iso':
        cfg = {'box_type': 'sigma_size', 'sigma_fac': 1.0, 'min_box_size': lo,
               'max_box_size': hi}
    rows = []
    for q in reqs:
        if kind == 'iso':
            rows.append(dict(tiny, iso_radius=float(q)))
        elif kind == 'cols':
            rows.append(dict(tiny, xmax=3+q-1))
        elif kind == 'rows':
            rows.append(dict(tiny, ymax=4+q-1))
        else:
            rows.append(dict(tiny, a=2.0, b=1.0, flux_radius=q*0.21))
    objs = sxdes.make_objs(rows)
    if kind != 'iso':
        reqs = reqsize(cfg, objs)
    mb = om.make_mbobs([om.make_obs((5, 5))])

    def handler(kind, info):
        return (objs.copy(), np.zeros((5, 5), dtype='i4')) if kind == 'detect' else None
    with env.use(handler):
        cat = MEDSifier(mb, None, cfg).cat
    out = Out(outcome=cat['box_size'].tolist(), steps=len(reqs))
    for q, b in zip(reqs, cat['box_size']):
        out.expect(b == boxsize(cfg, q), 'box', 'request %d in [%d,%d] gives %d expected %d'
                   % (q, lo, hi, b, boxsize(cfg, q)))
    return out


def spaces(tier):
    th = tier == 'thorough'
    kinds = [a + '-' + b for a in ('low', 'mid', 'hi') for b in
             ('flat', 'holes', 'varied', 'mostly0')]
    cases = []
    sets = [[k] for k in kinds] + [list(p) for p in itertools.product(kinds[::2], repeat=2)] + \
        [list(p) for p in itertools.permutations(kinds[1::3], 3)]
    for ws in sets:
        for fl in (None, 0, 1, 2, 3, 64, 67):
            for nb in (0, 1):
                cases.append(dict(weights=ws, flags=fl, nobmask=nb, rows=[0, 2], med=1, sx=0))
    box = []
    for n in range(0, 4 if th else 3):
        for sel in itertools.permutations(range(len(ROWS)), n):
            for med in range(len(MED)):
                for sx in (0, 1):
                    box.append(dict(weights=['mid-flat', 'hi-holes'], flags=64, nobmask=0,
                                    rows=list(sel), med=med, sx=sx))
    many = []
    for n in (4, 5, 6, 9):
        for first in range(0, len(kinds), 2):
            ws = [kinds[(first + 5*k) % len(kinds)] for k in range(n)]
            for fl in (None, 1, 8, 32, 64 + (1 << (n-1))):
                for nb in (0, n):
                    many.append(dict(weights=ws, flags=fl, nobmask=nb, rows=[0, 2], med=1, sx=0))
    for n in (12, 60):
        for med in range(len(MED)):
            many.append(dict(weights=['mid-flat', 'hi-holes'], flags=64, nobmask=0, sx=1,
                             rows=[(3*k + k//5) % len(ROWS) for k in range(n)], med=med))
    sizes = [dict(lo=lo, hi=hi, n=80) for lo in range(1, 50) for hi in
             (lo, lo+1, lo+7, lo+16, 48, 60, 64, 100) if hi >= lo]
    sizes += [dict(lo=lo, hi=hi, n=80, kind=k) for lo in (1, 2, 5, 32) for hi in (30, 47, 64, 256)
              if lo < hi for k in ('cols', 'rows', 'sigma')]
    bad = [{'t': t} for t in ('', 'iso', 'sigma', 'Iso_Radius')]
    return [Space('images', cases, run), Space('boxes', box, run), Space('many', many, run),
            Space('sizes', sizes, run_sizes), Space('bad-box', bad, run_badbox)]
