"""C09: shearing and unshearing positions."""
import itertools
import numpy as np
import ngmix
from mc.core import Space, Out
from mc import obsmodel as om
from metadetect import shearpos as sp

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('every shear type x step x image shape x coordinate system (rotated, flipped, skewed, '
        'shifted origins) x position set of the listed menus; non-trivial: a sheared type')
ASSUMPTIONS = ['invertible linear coordinate systems, steps below 0.3', 'tolerance 1e-8 pixels']

G = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}
SKIP = ['noshear', '1p_psf', '1m_psf', '2p_psf', '2m_psf']
# dvdrow, dvdcol, dudrow, dudcol
WCS = [
    (1.0, 0.0, 0.0, 1.0), (0.2, 0.0, 0.0, 0.2), (0.2, 0.0, 0.0, -0.2), (-0.263, 0.0, 0.0, 0.263),
    (0.25, 0.03, -0.02, 0.27), (0.0, 0.2, 0.2, 0.0), (0.0, -0.2, 0.2, 0.0), (0.2, 0.2, -0.2, 0.2),
]
DIMS = [(11, 11), (10, 21), (30, 7), (1, 1)]
ORIG = [(0.0, 0.0), (5.0, 5.0), (-3.5, 20.25), (1000.0, 2000.0)]
POS = [[], [[0.0, 0.0]], [[5.0, 5.0]], [[0.0, 10.0], [9.5, 0.25], [4.75, 20.0]],
       [[-2.0, 30.0], [3.0, 3.0]]]


def expected(rows, cols, typ, wcs, dims, step, inverse):
    """independent: move to offsets from the image centre, shear on the sky"""
    m = np.array([[wcs[3], wcs[2]], [wcs[1], wcs[0]]])   # (col,row) -> (u,v)
    g1, g2 = [step*x for x in G[typ]]
    if inverse:
        g1, g2 = -g1, -g2
    s = np.array([[1+g1, g2], [g2, 1-g1]])/np.sqrt(1-g1**2-g2**2)
    full = np.linalg.solve(m, s @ m)
    cr, cc = (dims[0]-1)/2, (dims[1]-1)/2
    d = np.array([cols - cc, rows - cr])
    o = full @ d
    return o[1] + cr, o[0] + cc


def run(case):
    typ, step = case['type'], case['step']
    dims = tuple(case['dims'])
    wcs = WCS[case['wcs']]
    r0, c0 = case['orig']
    jac = ngmix.Jacobian(row=r0, col=c0, dvdrow=wcs[0], dvdcol=wcs[1], dudrow=wcs[2],
                         dudcol=wcs[3])
    jrep = repr(jac)
    pos = np.array(POS[case['pos']], dtype='f8').reshape(-1, 2)
    rows, cols = pos[:, 0].copy(), pos[:, 1].copy()
    out = Out(trivial=typ in SKIP or len(pos) == 0)
    kw = {} if step is None else {'step': step}
    step = 0.01 if step is None else step
    if case['obs']:
        ob = ngmix.Observation(np.zeros(dims), weight=np.ones(dims), jacobian=jac)
        f = lambda fn, r, c: fn(r, c, typ, ob, **kw)  # noqa
        sh, un = sp.shear_positions_obs, sp.unshear_positions_obs
    else:
        f = lambda fn, r, c: fn(r, c, typ, jac, dims, **kw)  # noqa
        sh, un = sp.shear_positions, sp.unshear_positions
    res = {}
    for name, fn, inv in (('shear', sh, False), ('unshear', un, True)):
        r, c = f(fn, rows, cols)
        out.expect(np.array_equal(rows, pos[:, 0]) and np.array_equal(cols, pos[:, 1]),
                   name + '-input-modified', 'input positions modified')
        if typ in SKIP:
            er, ec = pos[:, 0], pos[:, 1]
            ok = np.array_equal(r, er) and np.array_equal(c, ec)
        else:
            er, ec = expected(pos[:, 0], pos[:, 1], typ, wcs, dims, step, inv)
            ok = (np.shape(r) == er.shape and np.shape(c) == ec.shape
                  and np.allclose(r, er, rtol=0, atol=1e-8)
                  and np.allclose(c, ec, rtol=0, atol=1e-8))
        out.expect(ok, name + '-value', lambda: '%s gives %s %s expected %s %s'
                   % (name, r, c, er, ec))
        res[name] = (np.array(r), np.array(c))
    # round trips, in both orders
    for a, fn in (('shear', un), ('unshear', sh)):
        r, c = f(fn, *res[a])
        out.expect(np.allclose(r, pos[:, 0], rtol=0, atol=1e-8) and
                   np.allclose(c, pos[:, 1], rtol=0, atol=1e-8), a + '-roundtrip',
                   lambda: 'round trip gives %s %s' % (r, c))
    out.expect(repr(jac) == jrep, 'jac-modified', 'the jacobian was modified')
    out.outcome = (typ, step, case['wcs'], repr([x.round(6).tolist() for x in res['unshear']]))
    return out


def run_bad(case):
    out = Out(outcome=case['type'])
    jac = ngmix.DiagonalJacobian(row=3, col=3, scale=0.2)
    for fn in (sp.shear_positions, sp.unshear_positions):
        try:
            fn(np.zeros(2), np.ones(2), case['type'], jac, (7, 7))
            out.bad('accepted', 'accepted shear type %r' % case['type'])
        except ValueError:
            pass
        out.checked += 1
    return out


def run_scalar(case):
    """a single position given as plain numbers"""
    out = Out(outcome=str(case))
    wcs = WCS[case['wcs']]
    jac = ngmix.Jacobian(row=1, col=2, dvdrow=wcs[0], dvdcol=wcs[1], dudrow=wcs[2],
                         dudcol=wcs[3])
    for name, fn, inv in (('shear', sp.shear_positions, False),
                          ('unshear', sp.unshear_positions, True)):
        r, c = fn(8.0, 1.5, case['type'], jac, (10, 21), step=case['step'])
        er, ec = expected(8.0, 1.5, case['type'], wcs, (10, 21), case['step'], inv)
        out.expect(np.allclose(r, er, atol=1e-8) and np.allclose(c, ec, atol=1e-8),
                   name + '-scalar', lambda: '%s %s expected %s %s' % (r, c, er, ec))
    return out


def spaces(tier):
    steps = [None, 0.01, 0.02, 0.1] + ([0.001, 0.2, 0.3] if tier == 'thorough' else [])
    cases = [dict(type=t, step=s, dims=list(d), wcs=w, orig=list(o), pos=p, obs=ob)
             for t, s, d, w, o, p, ob in itertools.product(
                 list(G) + SKIP, steps, DIMS, range(len(WCS)), ORIG, range(len(POS)), (0, 1))
             if t in G or (s in (None, 0.1) and w < 5)]
    bad = [{'type': t} for t in ('', '1', 'p1', '3p', '1P', 'noshear_psf', '1p ', 'psf')]
    sc = [dict(type=t, step=s, wcs=w) for t in G for s in (0.01, 0.1) for w in range(len(WCS))]
    return [Space('positions', cases, run), Space('unknown-types', bad, run_bad),
            Space('scalars', sc, run_scalar)]
