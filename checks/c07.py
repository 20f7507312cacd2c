"""C07: edge and bright-star masking of LSST multi-band exposures."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import obsmodel as om
from mc import lsstmodel as lm
from metadetect.lsst import masking

import lsst.afw.image as afw_image

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = ('every image shape x origin x set of optional planes x list of bright objects, and '
        'every history of edge and bright-object masking up to the stated depth; every step '
        'is compared with a reference model of all planes; states are the model states')
ASSUMPTIONS = ['apodized pixels are compared to 2e-6 relative (single precision images)',
               'lsst.afw and the wcs are stand-ins; masks use apodization scale 1.5 and '
               'expansion 16 pixels, as documented in the module']
AP, EXPAND = 1.5, 16


def make(case):
    dims, xy0 = tuple(case['dims']), tuple(case['xy0'])
    w = lm.wcs(*xy0, rot=case['rot'])
    bands = lm.BANDS[:case['nb']]

    def mb(off, var):
        es = []
        for b in bands:
            e = lm.exposure(dims, b, xy0, w=w, kind=case.get('kind', 'F'))
            e.image.array[:, :] += off
            if var is not None:
                e.variance.array[:, :] = var
            es.append(e)
        return lm.mbexp_of(es)
    mbexp = mb(0, None)
    noise = mb(3, 0.5) if case['opt'] & 1 else None
    mfrac = None
    if case['opt'] & 2:
        mfrac = mb(0, 0)
        for i, e in enumerate(mfrac.singles):
            e.image.array[:, :] = 0.125*i
    orm = None
    if case['opt'] & 4:
        r, c = np.mgrid[:dims[0], :dims[1]]
        orm = [((r + c + i) % 4 == 0).astype('i4')*4 for i in range(case.get('norm', case['nb']))]
    return w, bands, mbexp, noise, mfrac, orm


def state_of(mbexp, noise, mfrac, orm):
    return {'exp': lm.snaps(mbexp), 'noise': None if noise is None else lm.snaps(noise),
            'mfrac': None if mfrac is None else lm.snaps(mfrac),
            'orm': None if orm is None else [o.copy() for o in orm]}


def model(st, op, dims):
    """the state after one masking operation"""
    bit = {n: afw_image.Mask.getPlaneBitMask(n) for n in op['planes']}
    new = {'exp': [dict(s) for s in st['exp']],
           'noise': None if st['noise'] is None else [dict(s) for s in st['noise']],
           'mfrac': None if st['mfrac'] is None else [dict(s) for s in st['mfrac']],
           'orm': None if st['orm'] is None else list(st['orm'])}
    if op['op'] == 'edge':
        ap = om.edge_apodization(dims, AP)
        exp = np.zeros(dims, bool)
        b, be = bit['APODIZED_EDGE'], 0
    else:
        ap = om.apodization(dims, op['holes'], AP)
        exp = om.disc(dims, [(x, y, r + EXPAND) for x, y, r in op['holes']])
        b, be = bit['BRIGHT'], bit['BRIGHT_EXPANDED']
    m = ap < 1
    for s in new['exp'] + (new['noise'] or []):
        s['image'] = np.where(m, s['image']*ap, s['image'])
        s['variance'] = np.where(m, np.inf, s['variance'])
        s['mask'] = s['mask'] | np.where(m, b, 0) | np.where(exp, be, 0)
    if new['mfrac'] is not None:
        for s in new['mfrac']:
            s['image'] = np.where(m, 1.0, s['image'])
    if new['orm'] is not None:
        new['orm'] = [o | np.where(m, b, 0) | np.where(exp, be, 0) for o in new['orm']]
    return new, m, exp


def compare(out, tag, got, want, m):
    for part in ('exp', 'noise', 'mfrac'):
        if want[part] is None:
            continue
        for i, (g, w) in enumerate(zip(got[part], want[part])):
            t = '%s%s%d-' % (tag, part, i)
            out.expect(np.allclose(g['image'], w['image'], rtol=2e-6, atol=1e-6), t + 'image',
                       lambda: 'image is\n%s\nexpected\n%s' % (g['image'], w['image']))
            out.expect(np.array_equal(g['image'][~m], w['image'][~m].astype(g['image'].dtype)),
                       t + 'outside', 'pixels outside of the mask changed')
            out.expect(np.array_equal(g['variance'], w['variance'].astype('f4')),
                       t + 'variance', lambda: 'variance is\n%s\nexpected\n%s'
                       % (g['variance'], w['variance']))
            out.expect(np.array_equal(g['mask'], w['mask']), t + 'mask',
                       lambda: 'mask is\n%s\nexpected\n%s' % (g['mask'], w['mask']))
            bad = lm.same(g, w, skip=('image', 'variance', 'mask'))
            out.expect(not bad, t + 'other', '%s changed' % bad)
    if want['orm'] is not None:
        for i, (g, w) in enumerate(zip(got['orm'], want['orm'])):
            out.expect(np.array_equal(g, w), '%sormask%d' % (tag, i),
                       lambda: 'ormask is\n%s\nexpected\n%s' % (g, w))


def run(case):
    afw_image._reset_planes()
    if case.get('shift'):
        # other planes were added first: bits must be looked up by name
        for i in range(case['shift']):
            afw_image.Mask.addMaskPlane('OTHER%d' % i)
    dims = tuple(case['dims'])
    w, bands, mbexp, noise, mfrac, orm = make(case)
    out = Out(steps=len(case['ops']), trivial=True)
    sig = []
    for k, op in enumerate(case['ops']):
        before = state_of(mbexp, noise, mfrac, orm)
        kw = {}
        if noise is not None:
            kw['noise_mbexp'] = noise
        if mfrac is not None:
            kw['mfrac_mbexp'] = mfrac
        if orm is not None:
            kw['ormasks'] = orm
        if op['op'] == 'edge':
            masking.apply_apodized_edge_masks_mbexp(mbexp, **kw)
            mop = {'op': 'edge', 'planes': ['APODIZED_EDGE']}
        else:
            info = np.zeros(len(op['holes']), dtype=[
                ('ra', 'f8'), ('dec', 'f8'), ('radius_pixels', 'f8')])
            for j, (x, y, r) in enumerate(op['holes']):
                p = w.pixelToSky(x + case['xy0'][0], y + case['xy0'][1])
                info[j] = (p.getRa().asDegrees(), p.getDec().asDegrees(), r)
            keep = info.copy()
            masking.apply_apodized_bright_masks_mbexp(mbexp, bright_info=info, **kw)
            out.expect(np.array_equal(info, keep), 'input', 'bright_info was changed')
            mop = {'op': 'bright', 'holes': op['holes'],
                   'planes': ['BRIGHT', 'BRIGHT_EXPANDED']}
        want, m, exp = model(before, mop, dims)
        got = state_of(mbexp, noise, mfrac, orm)
        compare(out, 'step%d-%s-' % (k, op['op']), got, want, m)
        if m.any() or exp.any():
            out.trivial = False
        sig.append((int(m.sum()), int(exp.sum())))
        out.states.append((tuple(case['dims']), got['exp'][0]['mask'].tobytes()))
    out.outcome = (tuple(sig), case['nb'], case['opt'])
    return out


def warmup():
    run({'dims': [12, 14], 'xy0': [0, 0], 'rot': 0, 'nb': 1, 'opt': 7,
         'ops': [{'op': 'edge'}, {'op': 'bright', 'holes': [[3., 3., 2.5]]}]})


def spaces(tier):
    thorough = tier == 'thorough'
    edge = {'op': 'edge'}

    def br(*holes):
        # off the pixel grid: no pixel lies exactly on a circle
        return {'op': 'bright', 'holes': [
            [x + 0.0137, y + 0.0271, r + 0.0053] for x, y, r in holes]}
    shapes = [((12, 12), (0, 0)), ((11, 16), (0, 0)), ((26, 21), (100, 40)),
              ((30, 40), (-7, 13))]
    single = []
    for (d, o), opt, nb, rot in itertools.product(shapes, range(8), (1, 2), (0, 1)):
        ny, nx = d
        ops = [edge, br(), br((nx/2, ny/3, 4)), br((2.25, ny - 3.5, 6.5)),
               br((-12, 2, 3)), br((nx + 8.5, ny + 4, 6)), br((nx/3, ny/2, 3), (nx/2, ny/2, 5)),
               br((3, 5, 0.75)), br((500, 500, 20))]
        for op in ops:
            single.append({'dims': list(d), 'xy0': list(o), 'rot': rot, 'nb': nb,
                           'opt': opt, 'ops': [op], 'shift': 3*(rot == 1)})
    hist = []
    menu = [edge, br((5, 18, 4)), br((30, 7, 5)), br((-3, -2, 8)), br()]
    depth = 4 if thorough else 3
    for n in range(2, depth + 1):
        for ops in itertools.product(range(len(menu)), repeat=n):
            for opt in ((7,) if n == depth else (7, 0)):
                hist.append({'dims': [24, 34], 'xy0': [50, 20], 'rot': 2, 'nb': 2,
                             'opt': opt, 'kind': 'D' if ops[0] == 1 else 'F',
                             'ops': [menu[i] for i in ops]})
    for nb in (3, 5, 6):
        for opt in (0, 5, 7):
            for op in (edge, br((6, 9, 4), (12.5, 3, 2))):
                single.append({'dims': [16, 19], 'xy0': [40, -3], 'rot': 1, 'nb': nb,
                               'opt': opt, 'ops': [op], 'shift': 3})
    # more stars than a small table holds
    for n in (12, 40):
        single.append({'dims': [60, 75], 'xy0': [40, -3], 'rot': 1, 'nb': 2, 'opt': 7, 'shift': 0,
                       'ops': [br(*[((13.7*k) % 75, (29.3*k) % 60, 2 + k % 3)
                                    for k in range(n)])]})
    # masks of all images of a coadd: not as many as there are bands
    for nb, norm in ((1, 0), (1, 3), (2, 1), (2, 5), (3, 7)):
        for ops in ([edge], [br((6, 9, 4), (12.5, 3, 2))], [br((6, 9, 4)), edge]):
            single.append({'dims': [16, 19], 'xy0': [40, -3], 'rot': 1, 'nb': nb, 'norm': norm,
                           'opt': 7, 'ops': ops, 'shift': 0})
    # stars larger than the image
    for x, y, r in ((8, 9, 60), (-70, 5, 75), (12, 118, 110), (60, -40, 58.5), (-290, 8, 300),
                    (9, 9, 1000)):
        for d in ([16, 19], [42, 30]):
            single.append({'dims': d, 'xy0': [40, -3], 'rot': 1, 'nb': 2, 'opt': 7,
                           'ops': [br((x, y, r))], 'shift': 0})
    sp = [Space('single', single, run), Space('histories', hist, run)]
    if thorough:
        lat = []
        for x, y, r in itertools.product(range(-25, 56, 4), range(-25, 46, 4),
                                         (0.5, 3.3, 9.0, 10.5, 17.0)):
            lat.append({'dims': [22, 31], 'xy0': [9, 4], 'rot': 1, 'nb': 1, 'opt': 7,
                        'ops': [br((x + 0.3, y - 0.2, r))]})
        sp.append(Space('lattice', lat, run))
    return sp
