"""C23: replacing detected sources by noise and putting them back."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from ngmix import env
from metadetect.lsst import util

import lsst.afw.image as afw_image

PROPERTY = 'C23'
LEVEL = 'fault_enumeration'
RULE = ('every catalog of the menu x number of bands x every history of inserting sources up '
        'to the depth bound, each insertion left normally or by an exception, and a fault at '
        'every call of the noise replacement of every band; after every step all pixels of all '
        'bands are compared with the model; states are (step, bands, inserted)')
ASSUMPTIONS = ['lsst.meas.base.NoiseReplacer is a stand-in with the semantics of the stack: '
               'footprints of children lie within those of their parents']
DIMS, XY0 = (20, 24), (30, -5)


class Boom(Exception):
    pass


class Pattern(object):
    """an rng whose normal() is scale times a fixed pattern that differs per call"""
    def __init__(self):
        self.calls = []

    def randint(self, *a, **k):
        return 7

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.calls.append(float(scale))
        n = int(np.prod(size))
        p = np.cos(1.0 + np.arange(n)*0.7 + len(self.calls))
        return (loc + scale*p).reshape(size)


def cat(name):
    x0, y0 = XY0
    b = lm.block
    A = dict(id=1, pix=b(x0 + 4, y0 + 5, 2), peak=(x0 + 4, y0 + 5))
    B = dict(id=2, pix=b(x0 + 15, y0 + 9, 3, 2), peak=(x0 + 15, y0 + 9))
    P = dict(id=1, n=2, pix=b(x0 + 8, y0 + 8, 5, 4), peaks=[(x0 + 6, y0 + 7), (x0 + 11, y0 + 9)])
    C1 = dict(id=2, parent=1, pix=b(x0 + 6, y0 + 7, 2), peak=(x0 + 6, y0 + 7))
    C2 = dict(id=3, parent=1, pix=b(x0 + 11, y0 + 9, 2, 3), peak=(x0 + 11, y0 + 9))
    C2o = dict(id=3, parent=1, pix=b(x0 + 8, y0 + 8, 3), peak=(x0 + 8, y0 + 8))
    E = dict(id=4, pix=b(x0, y0 + 18, 2, 1, None)[0:0] + [(x0 + i, y0 + 19) for i in range(4)],
             peak=(x0, y0 + 19))
    return {'none': [], 'one': [A], 'two': [A, B], 'blend': [P, C1, C2], 'blendrev': [C2, P, C1],
            'overlap': [P, C1, C2o, E]}[name]


def pix(spec):
    m = np.zeros(DIMS, bool)
    for x, y in spec['pix']:
        m[y - XY0[1], x - XY0[0]] = True
    return m


def make(nb, kind='F'):
    es = []
    for i in range(nb):
        e = lm.exposure(DIMS, lm.BANDS[i], XY0, kind=kind)
        r, c = np.mgrid[:DIMS[0], :DIMS[1]]
        e.image.array[:, :] = 100 + 50*i + 3*r + 7*c + 0.25*i
        e.variance.array[:, :] = 0.25 + i + 0.001*r
        e.variance.array[0, :3] = np.inf
        e.variance.array[1, :2] = np.nan
        es.append(e)
    return lm.mbexp_of(es)


def bits():
    return (1 << afw_image.Mask.addMaskPlane('THISDET')
            | 1 << afw_image.Mask.addMaskPlane('OTHERDET'))


def run(case):
    afw_image._reset_planes()
    bits()
    specs = cat(case['cat'])
    sources = lm.catalog(specs)
    mbexp = make(case['nb'], case.get('kind', 'F'))
    orig = lm.snaps(mbexp)
    out = Out(steps=len(case['ops']) + 2, trivial=not specs)
    allm = np.zeros(DIMS, bool)
    for s in specs:
        allm |= pix(s)
    masks = {s['id']: pix(s) for s in specs}
    rng = Pattern()
    fault = case.get('fault')
    nask = [0]
    fired = []

    def handler(kind, info):
        if kind == 'lsst.noise_replacer' and fault is not None:
            if info['op'] == fault[0]:
                nask[0] += 1
                if nask[0] == fault[1]:
                    fired.append(1)
                    return Boom('injected')
        return None

    def images():
        return [e.image.array.copy() for e in mbexp.singles]

    def other(tag):
        for i, (o, e) in enumerate(zip(orig, mbexp.singles)):
            n = lm.snap(e)
            n['mask'] = n['mask'] & ~bits()
            o = dict(o, mask=o['mask'] & ~bits())
            bad = lm.same(o, n, skip=('image',))
            out.expect(not bad, tag + 'other', 'band %d: %s changed' % (i, bad))

    def check(tag, rep, inserted):
        if fired and fault[0] == 'remove':
            # the source that could not be removed stays in that band
            return
        check_pixels(tag, rep, inserted)

    def check_pixels(tag, rep, inserted):
        """every band: noise in the footprints, original elsewhere and where inserted"""
        ins = np.zeros(DIMS, bool)
        for s in inserted:
            ins |= masks[s]
        for i, (o, e) in enumerate(zip(orig, mbexp.singles)):
            a = e.image.array
            want = np.where(allm & ~ins, rep[i], o['image'])
            out.expect(np.array_equal(a, want), '%sband%d' % (tag, i),
                       lambda: 'band %d, inserted %s: pixels differ at %s' % (
                           i, list(inserted), np.argwhere(a != want)[:5].tolist()))
        out.states.append((case['cat'], case['nb'], tuple(inserted)))
        other(tag)

    def insert(rp, sid):
        return rp.sourceInserted(sid)

    left = None
    with env.use(handler):
        try:
            if case['which'] == 'single':
                kw = {}
                if case['noise']:
                    nim = afw_image.ExposureF(mbexp.singles[0], deep=True).maskedImage \
                        if case.get('kind', 'F') == 'F' else mbexp.singles[0].maskedImage.clone()
                    nim.image.array[:, :] = -5.0 - np.arange(DIMS[0]*DIMS[1]).reshape(DIMS)/64.0
                    kw['noise_image'] = nim
                if case.get('config'):
                    from lsst.meas.base import NoiseReplacerConfig
                    kw['config'] = NoiseReplacerConfig()
                ctx = util.ContextNoiseReplacer(mbexp.singles[0], sources, rng, **kw)
            else:
                ctx = util.MultibandNoiseReplacer(mbexp, sources, rng)
            with ctx as rp:
                rep = images()
                nrep = 1 if case['which'] == 'single' else case['nb']
                for i in range(case['nb']):
                    if i >= nrep:
                        out.expect(np.array_equal(rep[i], orig[i]['image']), 'other-band',
                                   'a band that was not given changed')
                        continue
                    out.expect(np.array_equal(rep[i][~allm], orig[i]['image'][~allm]),
                               'replaced-outside', 'pixels outside of all footprints changed')
                    if case['which'] == 'single' and case['noise']:
                        want = nim.image.array
                    else:
                        v = orig[i]['variance'].astype('f8')
                        sig = np.sqrt(np.median(v[np.isfinite(v)]))
                        want = sig*np.cos(1.0 + np.arange(v.size)*0.7 + i + 1).reshape(DIMS)
                    out.expect(np.allclose(rep[i][allm], want[allm], rtol=1e-5, atol=1e-5),
                               'replaced-noise',
                               lambda: 'band %d: footprints hold %s, expected noise %s' % (
                                   i, rep[i][allm][:4], want[allm][:4]))
                    out.expect(not np.any(rep[i][allm] == orig[i]['image'][allm]),
                               'replaced', 'a source pixel was not replaced')
                rep = [r if i < nrep else o['image'] for i, (r, o) in
                       enumerate(zip(rep, orig))]
                check('start-', rep, ())
                for k, op in enumerate(case['ops']):
                    t = 'op%d-' % k
                    try:
                        if op[0] == 'nest':
                            with insert(rp, op[1]):
                                check(t, rep, (op[1],))
                                with insert(rp, op[2]):
                                    check(t, rep, (op[1], op[2]))
                                check(t, rep, (op[1],))
                        elif op[0] == 'unknown':
                            try:
                                with insert(rp, 999):
                                    pass
                            except KeyError:
                                pass
                            else:
                                out.bad(t + 'unknown', 'unknown source was accepted')
                        elif op[0] == 'plain':
                            rp.insertSource(op[1])
                            check(t, rep, (op[1],))
                            rp.removeSource(op[1])
                        else:
                            with insert(rp, op[1]):
                                check(t, rep, (op[1],))
                                if op[0] == 'raise':
                                    raise Boom('user')
                    except Boom:
                        if op[0] == 'plain':
                            raise
                    check(t + 'after-', rep, ())
                if case.get('leave'):
                    raise Boom('leave')
        except Boom as e:
            left = str(e)
    out.expect(bool(fired) or left == ('leave' if case.get('leave') else None), 'exception',
               'an exception of the block was lost or added: %s' % left)
    if fault is not None and fault[0] == 'end':
        # a restoration that fails itself: the other bands are still restored
        nbad = sum(not np.array_equal(o['image'], e.image.array)
                   for o, e in zip(orig, mbexp.singles))
        out.expect(nbad <= (1 if fired and allm.any() else 0), 'restored-others',
                   '%d bands were not restored' % nbad)
    else:
        for i, (o, e) in enumerate(zip(orig, mbexp.singles)):
            bad = lm.same(o, lm.snap(e))
            out.expect(not bad, 'restored-band%d' % i,
                       lambda: 'after the block %s of band %d are not the original ones'
                       % (bad, i))
    if fault is not None and not fired:
        out.trivial = True
    out.outcome = (case['cat'], case['nb'], left, bool(fired), len(rng.calls))
    return out


def run_regular(case):
    """the regular replacer; children that share the pixels of the parent put back all of it"""
    afw_image._reset_planes()
    bits()
    specs = cat(case['cat'])
    mbexp = make(2)
    orig = lm.snaps(mbexp)
    e = mbexp.singles[1]
    out = Out(steps=len(case['ids']), trivial=not specs)
    kw = {}
    if case['noise']:
        kw['noise_image'] = nim = e.maskedImage.clone()
        nim.image.array[:, :] = -5.0 - np.arange(DIMS[0]*DIMS[1]).reshape(DIMS)/64.0
    masks = {s['id']: pix(s) for s in specs}
    top = {s['id']: s.get('parent', 0) or s['id'] for s in specs}
    allm = np.zeros(DIMS, bool)
    for s in specs:
        allm |= pix(s)
    o = orig[1]['image']
    rp = util.get_noise_replacer(e, lm.catalog(specs), **kw)
    rep = e.image.array.copy()
    out.expect(np.array_equal(rep[~allm], o[~allm]) and not np.any(rep[allm] == o[allm]),
               'regular-replaced', 'exactly the pixels of the sources have to be replaced')
    if case['noise']:
        out.expect(np.array_equal(rep[allm], nim.image.array[allm]), 'regular-noise',
                   'the pixels are not those of the noise image')
    for i in case['ids']:
        rp.insertSource(i)
        out.expect(np.array_equal(e.image.array, np.where(masks[top[i]], o, rep)),
                   'regular-inserted', 'source %d is not put back' % i)
        rp.removeSource(i)
        if top[i] == i:
            out.expect(np.array_equal(e.image.array, rep), 'regular-removed',
                       'source %d is not removed' % i)
        else:
            e.image.array[:, :] = rep
    rp.end()
    for b, (a, x) in enumerate(zip(orig, mbexp.singles)):
        out.expect(not lm.same(a, lm.snap(x)), 'regular-restored', 'band %d is not restored' % b)
    out.outcome = (case['cat'], len(case['ids']), case['noise'])
    return out


def run_noise(case):
    """the noise image itself"""
    afw_image._reset_planes()
    out = Out(outcome=(case['bad'], case['poisson']))
    e = lm.exposure((6, 7), 'r', (3, 4), kind=case['kind'])
    v = e.variance.array
    v[:, :] = 4.0 + 0.1*np.arange(42).reshape(6, 7)
    flat = [(i, j) for i in range(6) for j in range(7)]
    for k in range(case['bad']):
        i, j = flat[(5*k + case['off']) % 42]
        if k % 3 == 0:
            v[i, j] = np.inf
        elif k % 3 == 1:
            v[i, j] = np.nan
        else:
            e.image.array[i, j] = np.nan

    class Amp(object):
        def __init__(self, g):
            self.g = g

        def getGain(self):
            return self.g

    class Det(object):
        def getAmplifiers(self):
            return [Amp(1.5), Amp(2.5), Amp(5.0)]
    e.setDetector(Det())
    before = lm.snap(e)
    rng = Pattern()
    ni = util.get_noise_image(e, rng=rng, remove_poisson=bool(case['poisson']))
    out.expect(not lm.same(before, lm.snap(e)), 'input', 'the exposure was changed')
    use = np.isfinite(before['variance']) & np.isfinite(before['image'])
    vv = before['variance'][use].astype('f8')
    if case['poisson']:
        vv = vv - before['image'][use].astype('f8')/3.0
    var = np.median(vv)
    want = np.sqrt(var)*np.cos(1.0 + np.arange(42)*0.7 + 1).reshape(6, 7)
    out.expect(np.allclose(ni.image.array, want, rtol=1e-5, atol=1e-6), 'noise',
               lambda: 'noise is\n%s\nexpected\n%s' % (ni.image.array, want))
    out.expect(np.allclose(ni.variance.array, var, rtol=1e-5), 'variance',
               lambda: 'variance %s expected %s' % (ni.variance.array[0, 0], var))
    out.expect(ni.getBBox() == e.getBBox(), 'box', 'box differs')
    return out


def warmup():
    run({'cat': 'one', 'nb': 1, 'which': 'multi', 'noise': 0, 'ops': [('ins', 1)]})


def ids(name):
    return [s['id'] for s in cat(name)]


def opmenu(name):
    m = []
    for i in ids(name):
        m += [['ins', i], ['raise', i], ['plain', i]]
    if name in ('two', 'blend', 'blendrev'):
        a, b = ids(name)[-2:]
        if not (pix(cat(name)[-1]) & pix(cat(name)[-2])).any():
            m.append(['nest', a, b])
    m.append(['unknown'])
    return m


def spaces(tier):
    thorough = tier == 'thorough'
    cases = []
    depth = 3 if thorough else 2
    for name in ('none', 'one', 'two', 'blend', 'blendrev', 'overlap'):
        m = opmenu(name)
        for nb, which, noise in ((1, 'single', 0), (2, 'single', 1), (1, 'multi', 0),
                                 (2, 'multi', 0), (3, 'multi', 0)):
            for n in range(depth + 1):
                for ops in itertools.product(m, repeat=n):
                    for leave in (0, 1):
                        if leave and n > 1:
                            continue
                        cases.append({'cat': name, 'nb': nb, 'which': which, 'noise': noise,
                                      'ops': list(ops), 'leave': leave,
                                      'kind': 'D' if which == 'multi' and nb == 2 else 'F'})
    for nb in (4, 6):
        for name in ('two', 'overlap'):
            for ops in itertools.product(opmenu(name), repeat=2):
                cases.append({'cat': name, 'nb': nb, 'which': 'multi', 'noise': 0,
                              'ops': list(ops), 'leave': 0, 'kind': 'F'})
    faults = []
    for name in ('one', 'two', 'blend'):
        for nb in (1, 2, 3):
            i = ids(name)
            for ops in ([['ins', i[-1]]], [['ins', i[0]], ['raise', i[-1]]],
                        [['ins', k] for k in i]):
                for op in ('init', 'insert', 'remove', 'end'):
                    nmax = nb*(1 if op in ('init', 'end') else len(ops))
                    for k in range(1, nmax + 1):
                        faults.append({'cat': name, 'nb': nb, 'which': 'multi', 'noise': 0,
                                       'ops': ops, 'fault': [op, k]})
    noise = [{'kind': k, 'bad': b, 'off': o, 'poisson': p} for k in 'FD'
             for b in range(0, 13) for o in range(0, 42, 5 if thorough else 11)
             for p in (0, 1)]
    reg = [{'cat': name, 'ids': list(i), 'noise': w} for name in
           ('none', 'one', 'two', 'blend', 'blendrev', 'overlap') for n in range(depth + 1)
           for i in itertools.product(ids(name), repeat=n) for w in (0, 1)]
    for name in ('one', 'blend'):
        cases += [{'cat': name, 'nb': 1, 'which': 'single', 'noise': w, 'leave': 0, 'config': 1,
                   'ops': [['ins', i]]} for i in ids(name) for w in (0, 1)]
    return [Space('regular', reg, run_regular), Space('histories', cases, run), Space('faults', faults, run),
            Space('noise-image', noise, run_noise)]
