"""C24: subtracting the models of all sources and adding them back one at a time."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from ngmix import env
import lsst.scarlet.lite as scl
from lsst.meas.extensions.scarlet import ModelData, HierarchicalBlendData, BlendData
from lsst.meas.extensions.scarlet.io.utils import updateCatalogFootprints
from lsst.pex.exceptions import LengthError
from metadetect.lsst.model_subtractor import ModelSubtractor
from metadetect.lsst.mbobs_extractor import MBObsExtractor

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = ('every layout of source models of the menu x bands x psf kernel x every history of the '
        'operations up to the depth bound, contexts left normally or by an exception and nested; '
        'after every operation all pixels of all bands are compared with the model; states are '
        '(layout, bands, sources added)')
ASSUMPTIONS = ['the scarlet containers, footprints and multi-band images are stand-ins with the '
               'semantics of the stack; pixel values are exact in single precision']
DIMS, XY0 = (18, 21), (40, -7)


class Boom(Exception):
    pass


def bump(nb, hw, amp, flat=False):
    n = 2*hw + 1
    y, x = np.mgrid[:n, :n] - hw
    m = np.maximum(0, 8 - (x**2 + y**2 if not flat else 0*x) + 0.5*x)
    out = np.stack([amp*(1 + 2*i)*m for i in range(nb)]).astype('f4')
    return out


#: name: list of (blend, centre x, y relative to the corner, half width, amplitude)
LAYOUTS = {
    'one': [(1, 9, 8, 2, 1)],
    'pair': [(1, 7, 8, 2, 1), (1, 11, 9, 2, 2)],
    'apart': [(1, 4, 4, 1, 1), (2, 15, 12, 2, 2)],
    'corner': [(1, 1, 1, 2, 1), (2, 19, 16, 3, 2)],
    'three': [(1, 7, 8, 2, 1), (1, 10, 8, 2, 2), (2, 20, 3, 1, 3)],
    'same': [(1, 9, 8, 2, 1), (1, 9, 8, 2, 2)],
    'groups': [(1, 4, 4, 1, 1), (2, 15, 12, 2, 2), (2, 13, 12, 1, 1), (3, 9, 5, 1, 3),
               (4, 18, 4, 1, 2)],
    'negative': [(1, 7, 8, 2, -1), (1, 11, 9, 2, 2)],
    'none': [],
}


def kernel(name, nb):
    ks = []
    for i in range(nb):
        k = np.zeros((3, 3))
        k[1, 1] = 1
        if name == 'wide':
            k = np.zeros((5, 9))
            k[2, 4] = 0.25
            k[0, 5 - i % 2] = 0.25
            k[3, 0] = k[4, 2 + i % 3] = 0.125
            k[1, 8] = 0.25
        if name == 'asym':
            k[1, 1] = 0.5
            k[1, 2] = 0.25
            k[0, 1] = 0.25*(i % 2)
            k[2, 0] = 0.25*(1 - i % 2)
        ks.append(k)
    return np.array(ks)


def build(case):
    """mbexp, catalog, model data, and the expected model images per source"""
    nb = case['nb']
    bands = lm.BANDS[:nb]
    es = []
    for i in range(nb):
        e = lm.exposure(DIMS, bands[i], XY0, psf=lm.pos_psf(5, 1.0 + 0.1*i),
                        w=lm.wcs_menu('rot', *XY0))
        r, c = np.mgrid[:DIMS[0], :DIMS[1]]
        e.image.array[:, :] = 3*r + 5*c + 0.25*i + 7
        e.variance.array[:, :] = 0.25*(i + 1)
        es.append(e)
    mb = lm.mbexp_of(es)
    lay = LAYOUTS[case['layout']]
    psf = kernel(case['kernel'], nb)
    box = scl.Box(DIMS, (XY0[1], XY0[0]))
    specs, models, blends = [], {}, {}
    sid = 0
    groups = sorted({s[0] for s in lay})
    for g in groups:
        sid += 1
        pid = sid
        specs.append(dict(id=pid, n=1 + sum(s[0] == g for s in lay), peak=(XY0[0], XY0[1]),
                          pix=[XY0]))
        srcs = []
        for (_, x, y, hw, amp) in [s for s in lay if s[0] == g]:
            sid += 1
            data = bump(nb, hw, amp, case.get('flat', False))
            gx, gy = x + XY0[0], y + XY0[1]
            srcs.append((sid, scl.Image(data, bands, (gy - hw, gx - hw)), (gy, gx)))
            specs.append(dict(id=sid, parent=pid, peak=(gx, gy), cen=(gx + 0.25, gy - 0.125),
                              pix=[(gx, gy)], wcs=es[0].getWcs()))
            # the expected model: cut to the image, convolved in the image
            big = np.zeros((nb,) + DIMS)
            for yy in range(2*hw + 1):
                for xx in range(2*hw + 1):
                    py, px = y - hw + yy, x - hw + xx
                    if 0 <= py < DIMS[0] and 0 <= px < DIMS[1]:
                        for b in range(nb):
                            for ky in range(psf.shape[1]):
                                for kx in range(psf.shape[2]):
                                    qy = py + ky - psf.shape[1]//2
                                    qx = px + kx - psf.shape[2]//2
                                    if 0 <= qy < DIMS[0] and 0 <= qx < DIMS[1]:
                                        big[b, qy, qx] += data[b, yy, xx]*psf[b, ky, kx]
            models[sid] = big
        if case.get('nested') and blends:
            # several blends below one parent
            list(blends.values())[0].children[pid] = BlendData(srcs, box)
        else:
            blends[pid] = HierarchicalBlendData({pid: BlendData(srcs, box)})
    if case.get('isolated'):
        # an isolated source without a model
        specs.append(dict(id=sid + 1, peak=(XY0[0] + 3, XY0[1] + 15),
                          pix=lm.block(XY0[0] + 3, XY0[1] + 15, 1), wcs=es[0].getWcs()))
    cat = lm.catalog(specs)
    md = ModelData({'bands': bands, 'model_psf': np.ones((1, 1)), 'psf': psf}, blends)
    updateCatalogFootprints(md, cat, 'i')
    return mb, cat, md, models


def opmenu(ids):
    m = [['add', i] for i in ids] + [['raise', ids[-1]]] if ids else []
    if len(ids) > 1:
        m.append(['nest', ids[0], ids[1]])
        m.append(['nest', ids[-1], ids[0]])
    if ids:
        m += [['model', ids[0]], ['stamp', ids[-1]], ['toobig', ids[0]]]
    m += [['full'], ['unknown']]
    return m


def run(case):
    out = Out(steps=len(case['ops']) + 1)
    mb, cat, md, models = build(case)
    before = lm.snaps(mb)
    bands = mb.bands
    msub = ModelSubtractor(mb, cat, md)
    tot = np.sum([m for m in models.values()], axis=0) if models else np.zeros(
        (len(bands),) + DIMS)
    orig = np.stack([b['image'] for b in before]).astype('f8')

    def check(tag, added):
        want = orig - tot
        for s in added:
            want = want + models[s]
        for i, e in enumerate(msub.mbexp.singles):
            out.expect(np.array_equal(e.image.array, want[i]), '%sband%d' % (tag, i),
                       lambda: 'band %d with %s added: %d pixels differ, e.g. at %s' % (
                           i, added, (e.image.array != want[i]).sum(),
                           np.argwhere(e.image.array != want[i])[:3].tolist()))
            s = lm.snap(e)
            bad = [k for k in lm.same(before[i], s, skip=('image', 'psf'))]
            out.expect(not bad, tag + 'planes', lambda: '%s of the working copy differ' % bad)
            out.expect(np.array_equal(lm.psf_image(e, (XY0[0] + 3, XY0[1] + 9)),
                                      lm.psf_image(mb.singles[i], (XY0[0] + 3, XY0[1] + 9))),
                       tag + 'planes-psf', 'psf of the working copy differs')
        for b, s in zip(before, lm.snaps(mb)):
            bad = lm.same(b, s)
            out.expect(not bad, tag + 'input', lambda: '%s of the input changed' % bad)
        out.states.append((case['layout'], len(bands), tuple(added)))

    ids = list(msub.child_ids())
    out.expect(sorted(ids) == sorted(models) and len(set(ids)) == len(ids), 'ids',
               'sources %s expected %s' % (ids, sorted(models)))
    out.expect([s.getId() for s in msub.children()] == ids, 'children', 'children differ')
    check('start-', ())
    for k, op in enumerate(case['ops']):
        t = 'op%d-%s-' % (k, op[0])
        if op[0] == 'add':
            with msub.add_source(op[1]) as got:
                out.expect(got is msub.mbexp, t + 'yield', 'another image is given')
                check(t, (op[1],))
        elif op[0] == 'raise':
            try:
                with msub.add_source(op[1]):
                    check(t, (op[1],))
                    raise Boom()
            except Boom:
                pass
            else:
                out.bad(t + 'lost', 'an exception of the block was lost')
        elif op[0] == 'nest':
            with msub.add_source(op[1]):
                with msub.add_source(op[2]):
                    check(t, (op[1], op[2]))
                check(t, (op[1],))
        elif op[0] == 'unknown':
            for sid in (1, 999):
                try:
                    with msub.add_source(sid):
                        pass
                except ValueError:
                    pass
                else:
                    out.bad(t + 'unknown', 'source %d without a model was accepted' % sid)
                for name in ('get_stamp', 'get_mbobs', 'get_model', 'get_bbox'):
                    try:
                        getattr(msub, name)(sid, stamp_size=3, clip=True)
                    except ValueError:
                        continue
                    out.bad(t + 'unknown', '%s of source %d without a model' % (name, sid))
        elif op[0] == 'toobig':
            try:
                with msub.add_source(op[1]):
                    msub.get_mbobs(op[1], stamp_size=99)
            except LengthError:
                pass
            else:
                out.bad(t, 'a stamp larger than the image was given')
        elif op[0] == 'full':
            full = msub.get_full_model()
            for i, e in enumerate(full.singles):
                out.expect(np.array_equal(e.image.array, tot[i]), t + 'image',
                           lambda: 'model of all sources differs in band %d' % i)
                e.image.array[:, :] = 1e5   # a copy
        elif op[0] == 'model':
            st = msub.get_model(op[1])
            y, x = np.where(models[op[1]].max(axis=0) != 0)
            bb = st.getBBox()
            want = (int(x.min()) + XY0[0], int(y.min()) + XY0[1],
                    int(np.ptp(x)) + 1, int(np.ptp(y)) + 1)
            out.expect((bb.beginX, bb.beginY, bb.width, bb.height) == want, t + 'box',
                       'model box is %s expected %s' % (bb, want))
            for i, e in enumerate(st.singles):
                w = models[op[1]][i][y.min():y.max() + 1, x.min():x.max() + 1]
                out.expect(np.array_equal(e.image.array, w), t + 'image', 'model image differs')
                e.image.array[:, :] = -3e4
        elif op[0] == 'stamp':
            with msub.add_source(op[1]):
                st = msub.get_stamp(op[1], stamp_size=5, clip=True)
                ob = msub.get_mbobs(op[1], stamp_size=5, clip=True)
                so = msub.get_stamp(op[1], stamp_size=5, clip=True, type='original')
                oo = msub.get_mbobs(op[1], stamp_size=5, clip=True, type='original')
            bb = st.getBBox()
            sl = (slice(bb.beginY - XY0[1], bb.endY - XY0[1]),
                  slice(bb.beginX - XY0[0], bb.endX - XY0[0]))
            for i in range(len(bands)):
                w = (orig - tot + models[op[1]])[i][sl]
                # taken inside of the block, still right after it
                out.expect(np.array_equal(st.singles[i].image.array, w), t + 'stamp',
                           'stamp does not show the source with the others subtracted')
                out.expect(np.array_equal(ob[i][0].image, w), t + 'obs',
                           'observation does not show the source with the others subtracted')
                out.expect(np.array_equal(so.singles[i].image.array, orig[i][sl])
                           and np.array_equal(oo[i][0].image, orig[i][sl]), t + 'original',
                           'stamp of the original data differs')
                st.singles[i].image.array[:, :] = 1e5
                so.singles[i].image.array[:, :] = 1e5
        check(t + 'after-', ())
    out.outcome = (case['layout'], len(bands), tuple(o[0] for o in case['ops']))
    return out


def run_stamps(case):
    """all kinds of stamps, footprint box or given size"""
    out = Out()
    mb, cat, md, models = build(case)
    bands = mb.bands
    msub = ModelSubtractor(mb, cat, md)
    tot = np.sum([m for m in models.values()], axis=0)
    orig = np.stack([e.image.array for e in mb.singles]).astype('f8')
    for sid in models:
        src = cat.find(sid)
        pk = src.getFootprint().getPeaks()[0]
        px, py = pk.getIx(), pk.getIy()
        n = case['size']
        y, x = np.where(models[sid].max(axis=0) != 0)
        if n is None:
            box = (x.min(), y.min(), np.ptp(x) + 1, np.ptp(y) + 1)
            fits = True
        else:
            h = n//2
            x0, y0, x1, y1 = px - XY0[0] - h, py - XY0[1] - h, px - XY0[0] + h, py - XY0[1] + h
            fits = x0 >= 0 and y0 >= 0 and x1 < DIMS[1] and y1 < DIMS[0]
            if case['clip'] is True:
                x0, y0 = max(x0, 0), max(y0, 0)
                x1, y1 = min(x1, DIMS[1] - 1), min(y1, DIMS[0] - 1)
                fits = True
            box = (x0, y0, x1 - x0 + 1, y1 - y0 + 1)
        want = {'deblended': orig - tot, 'original': orig, 'model': models[sid]}[case['type']]
        for meth in ('get_stamp', 'get_mbobs', 'get_model', 'get_bbox'):
            k = '%s-' % meth
            kw = dict(stamp_size=n, clip=case['clip'])
            if case['clip'] is None:
                del kw['clip']
            if meth in ('get_model', 'get_bbox') and case['type'] != 'model':
                continue
            if meth in ('get_stamp', 'get_mbobs'):
                kw['type'] = case['type']
            try:
                got = getattr(msub, meth)(sid, **kw)
            except LengthError:
                out.expect(not fits, k + 'refused', 'a stamp of %s that fits was refused' % n)
                out.outcome = 'refused'
                continue
            out.expect(fits, k + 'accepted', 'a stamp that does not fit was accepted')
            if not fits:
                continue
            sl = (slice(box[1], box[1] + box[3]), slice(box[0], box[0] + box[2]))
            gbox = (int(box[0]) + XY0[0], int(box[1]) + XY0[1], int(box[2]), int(box[3]))
            if meth == 'get_bbox':
                bb = got
                out.expect((bb.beginX, bb.beginY, bb.width, bb.height) == gbox, k + 'box',
                           lambda: '%s expected %s' % (bb, gbox))
                continue
            if meth != 'get_mbobs':
                bb = got.getBBox()
                out.expect((bb.beginX, bb.beginY, bb.width, bb.height) == gbox, k + 'box',
                           lambda: '%s expected %s' % (bb, gbox))
                out.expect(tuple(got.bands) == tuple(bands), k + 'bands', 'bands differ')
            else:
                import ngmix
                out.expect(isinstance(got, ngmix.MultiBandObsList) and len(got) == len(bands),
                           k + 'type', lambda: 'gave a %s' % type(got).__name__)
                if not isinstance(got, ngmix.MultiBandObsList):
                    continue
            for i in range(len(bands)):
                a = got[i][0].image if meth == 'get_mbobs' else got.singles[i].image.array
                out.expect(a.shape == want[i][sl].shape and np.array_equal(a, want[i][sl]),
                           k + 'image', lambda: '%s of band %d differs' % (case['type'], i))
    out.outcome = out.outcome or (case['type'], case['size'], case['clip'])
    return out


def run_noop(case):
    """the extractor without models"""
    out = Out(steps=len(case['ops']))
    mb, cat, md, models = build(case)
    before = lm.snaps(mb)
    ex = MBObsExtractor(mb, cat)
    want = [s.getId() for s in cat if s['deblend_nChild'] == 0]
    out.expect(list(ex.child_ids()) == want, 'ids',
               lambda: '%s expected %s' % (list(ex.child_ids()), want))
    out.expect([s.getId() for s in ex.children()] == want, 'children', 'children differ')
    for k, op in enumerate(case['ops']):
        t = 'op%d-' % k
        if op[0] in ('add', 'raise'):
            try:
                with ex.add_source(op[1]):
                    ob = ex.get_mbobs(op[1], stamp_size=5, clip=True)
                    st = ex.get_stamp(op[1], stamp_size=5, clip=True)
                    if op[0] == 'raise':
                        raise Boom()
            except Boom:
                out.expect(op[0] == 'raise', t + 'exc', 'exception')
            bb = st.getBBox()
            sl = (slice(bb.beginY - XY0[1], bb.endY - XY0[1]),
                  slice(bb.beginX - XY0[0], bb.endX - XY0[0]))
            for i in range(len(before)):
                out.expect(np.array_equal(st.singles[i].image.array, before[i]['image'][sl])
                           and np.array_equal(ob[i][0].image, before[i]['image'][sl]),
                           t + 'image', 'stamp is not that of the data')
                st.singles[i].image.array[:, :] = 1e5
        elif op[0] == 'unknown':
            for sid in (999,) + ((1,) if 1 not in want else ()):
                for f in (lambda: ex.add_source(sid).__enter__(),
                          lambda: ex.get_mbobs(sid, 5), lambda: ex.get_stamp(sid, 5)):
                    try:
                        f()
                    except ValueError:
                        continue
                    out.bad(t + 'unknown', 'source %d was accepted' % sid)
        for b, s in zip(before, lm.snaps(mb)):
            bad = lm.same(b, s)
            out.expect(not bad, t + 'input', lambda: '%s of the input changed' % bad)
        out.states.append((case['layout'], k))
    out.outcome = (case['layout'], case['nb'], len(case['ops']))
    return out


def warmup():
    run({'layout': 'one', 'nb': 2, 'kernel': 'delta', 'ops': [['add', 2]]})


def ids_of(name):
    n, out, last = 0, [], None
    for s in LAYOUTS[name]:
        if s[0] != last:
            n += 1
            last = s[0]
        n += 1
        out.append(n)
    return out


def spaces(tier):
    thorough = tier == 'thorough'
    cases, noop = [], []
    for name in LAYOUTS:
        m = opmenu(ids_of(name))
        for nb in (1, 2, 3):
            for kn in ('delta', 'asym', 'wide') if name != 'negative' else ('delta',):
                depth = (3 if thorough else 2) if kn == 'asym' or thorough else 1
                for n in range(depth + 1):
                    for ops in itertools.product(m, repeat=n):
                        cases.append({'layout': name, 'nb': nb, 'kernel': kn,
                                      'ops': list(ops), 'isolated': n == 1,
                                      'nested': name == 'groups' and len(cases) % 2})
            ids = ids_of(name)
            m2 = [['add', i] for i in ids] + [['raise', i] for i in ids[:1]] + [['unknown']]
            for n in range(4 if thorough else 3):
                for ops in itertools.product(m2, repeat=n):
                    for iso in (0, 1):
                        noop.append({'layout': name, 'nb': nb, 'kernel': 'delta',
                                     'ops': list(ops), 'isolated': iso})
        for nb in (4, 6):
            for ops in itertools.product(m, repeat=2 if thorough else 1):
                cases.append({'layout': name, 'nb': nb,
                              'kernel': 'asym' if name != 'negative' else 'delta', 'ops': list(ops),
                              'isolated': 0})
    stamps = [{'layout': name, 'nb': nb, 'kernel': kn, 'size': n, 'clip': c, 'type': ty,
               'flat': fl}
              for name in LAYOUTS if name != 'none' for nb in (1, 2, 3, 6)
              for kn in (('delta', 'asym', 'wide') if name != 'negative' else ('delta',))
              for n in (None, 1, 2, 3, 4, 5, 8, 11, 17, 40)
              for c in (False, True, None) for ty in ('deblended', 'original', 'model')
              for fl in (False, True)]
    return [Space('histories', cases, run), Space('stamps', stamps, run_stamps),
            Space('no-models', noop, run_noop)]


_ = env
