"""C38: displaying data changes neither data nor results and shows what was asked for."""
import contextlib
import io
import itertools
import sys
import types
import warnings
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from mc import mdmodel as mm
from mc import meta
from ngmix import env
import lsst.afw.image as afw_image
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt  # noqa: E402
from metadetect.metadetect import Metadetect  # noqa: E402
from metadetect.lsst.metadetect import run_metadetect  # noqa: E402
from metadetect.lsst.photometry import run_photometry  # noqa: E402
from metadetect.lsst import vis  # noqa: E402
from . import c28, c36  # noqa: E402

PROPERTY = 'C38'
LEVEL = 'exploration'
RULE = ('every run of the menu with and without display, and every display function for every '
        'number of bands, kind of catalogue and option of the menus; the figures drawn by '
        'matplotlib are read back; non-trivial: something is shown')
ASSUMPTIONS = ['astropy, espy, descwl_coadd, scarlet and ds9 displays are stand-ins which remember '
               'what they are given']
FIGS = []


class Norm(object):
    def __init__(self, **kw):
        self.kw = kw


def to_rgb(image, norm=None):
    """scarlet's maps the bands to the channels"""
    im = np.asarray(image, dtype='f8')[:3]
    return np.moveaxis(np.clip(im/max(im.max(), 1e-9), 0, 1), 0, -1)


class Grid(object):
    def __init__(self, n):
        self.nrow = int(np.floor(np.sqrt(n)))
        self.ncol = -(-n//self.nrow)


@contextlib.contextmanager
def screen():
    """figures are kept instead of being put on a screen"""
    old = {}
    log = []

    def put(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        old[name] = sys.modules.get(name)
        sys.modules[name] = m
        return m
    lup = put('astropy.visualization.lupton_rgb', AsinhMapping=Norm)
    av = put('astropy.visualization', lupton_rgb=lup)
    put('astropy', visualization=av)
    pl = put('espy.plotting', Grid=Grid)
    put('espy', plotting=pl)
    dv = put('descwl_coadd.vis', show_image=lambda *a, **k: log.append(('seg', a, k)),
             show_images=lambda *a, **k: log.append(('images', a, k)))
    put('descwl_coadd', vis=dv)
    import lsst.scarlet.lite as scl
    scl.display = types.SimpleNamespace(img_to_rgb=to_rgb)
    oshow, oinput = plt.show, __builtins__['input']

    def show(*args, **kw):
        log.append(('show', [read(plt.figure(n)) for n in plt.get_fignums()], None))
        plt.close('all')
    plt.show = show
    __builtins__['input'] = lambda *a: log.append(('input', a, None)) or ''
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield log
    finally:
        plt.show, __builtins__['input'] = oshow, oinput
        plt.close('all')
        del scl.display
        for n, m in old.items():
            if m is None:
                del sys.modules[n]
            else:
                sys.modules[n] = m


def read(fig):
    """what is drawn in every panel"""
    res = []
    for ax in fig.axes:
        res.append({'images': [np.ma.getdata(i.get_array()) for i in ax.images],
                    'points': [np.ma.getdata(c.get_offsets()) for c in ax.collections],
                    'title': ax.get_title(), 'on': ax.axison})
    return res


def follows(shown, data):
    """the displayed image is an increasing function of the data"""
    data = np.asarray(data, dtype='f8')
    if shown.shape != data.shape:
        return False
    o = np.argsort(data, axis=None, kind='stable')
    s = np.asarray(shown, dtype='f8').ravel()[o]
    return bool(np.all(np.diff(s) >= -1e-4*max(np.ptp(s), 1e-9))) and (data.max() == data.min() or s[-1] > s[0])


def rng_state(rng):
    s = rng.get_state()
    return (s[0], s[1].tolist()) + tuple(s[2:])


# runs


def core(case, show):
    cfg = {'meds': dict(mm.MEDS), 'bmask_flags': 0, 'nodet_flags': 0,
           'metacal': {'psf': 'gauss', 'types': ['noshear', '1p']}}
    cfg.update(mm.deep(meta.FITS[case['fit']]))
    mb = mm.make_mbobs(meta.DIMS, [meta.STATES[s] for s in case['bands']])
    rng = np.random.RandomState(2)

    def handler(kind, info):
        if kind == 'detect':
            return c36.answer(case['idx'], {}, meta.DIMS)
        if kind == 'guess':
            return info['rng'].uniform(-1, 1)
    with env.use(handler):
        md = Metadetect(cfg, mb, rng, show=show, shear_band_combs=case['shear'],
                        det_band_combs=case['det'])
        md.go()
    return md.result, mm.snap(mb), rng_state(rng), mb


def run_core(case):
    out = Out(trivial=True)
    with screen() as log:
        ref, rs, rr, _ = core(case, False)
        out.expect(not log, 'shown', 'something is displayed although not requested')
        got, gs, gr, mb = core(case, True)
    out.steps += 2
    out.expect(mm.same(ref, got), 'results', 'the results differ with display')
    out.expect(mm.same_snap(rs, gs), 'data', 'the data are changed by the display')
    out.expect(rr == gr, 'rng', 'random numbers were used by the display')
    nd = len(case['shear'] or [1])
    segs = [l for l in log if l[0] == 'seg']
    ims = [l for l in log if l[0] == 'images']
    out.trivial = not log
    out.expect(len(segs) == 2*nd, 'segmentations', '%d segmentation maps' % len(segs))
    out.expect(len(ims) == 2*len(mb), 'images', '%d sets of images' % len(ims))
    want = c36.answer(case['idx'], {}, meta.DIMS)[1]
    for s in segs:
        out.expect(np.array_equal(s[1][0], want), 'segmentations', 'another segmentation map')
    for k, (_, a, kw) in enumerate(ims):
        t = ['noshear', '1p'][k//len(mb)]
        o = mb[k % len(mb)][0]
        out.expect(kw.get('title') == t, 'images', 'title %s for %s' % (kw.get('title'), t))
        out.expect(len(a[0]) == 4 and np.array_equal(a[0][1], o.bmask) and
                   np.array_equal(a[0][3], o.noise) and a[0][0].shape == o.image.shape, 'images',
                   'other images of band %d' % (k % len(mb)))
    out.outcome = (len(segs), len(ims))
    return out


def lsst(case, show):
    afw_image._reset_planes()
    c = dict(c28.BASE, **case)
    mb, nmb, mf, orm = c28.build(c)
    rng = np.random.RandomState(4)
    base = meta.lsst_handler(None)

    def handler(kind, info):
        if kind == 'lsst.detect':
            return c28.plan_answer(case['plan'])
        if kind == 'lsst.centroid':
            k = info['source'].getFootprint().getPeaks()[0]
            return (k.getIx() + 0.25, k.getIy() - 0.375)
        if kind == 'guess':
            return info['rng'].uniform(-1, 1)
        return base(kind, info)
    config = c28.make_config(c)
    with env.use(handler):
        if case['run'] == 'mdet':
            res = run_metadetect(mb, nmb, rng, mf, orm, config, show=show)
        else:
            config.pop('metacal', None)
            res = {'all': run_photometry(mb, rng, mf, orm, config, show=show)}
    return res, lm.snaps(mb), rng_state(rng), mb


def run_lsst(case):
    out = Out(trivial=True)
    with screen() as log:
        ref, rs, rr, _ = lsst(case, False)
        out.expect(not log, 'shown', 'something is displayed although not requested')
        got, gs, gr, mb = lsst(case, True)
    out.steps += 2
    out.expect(mm.same(ref, got), 'results', 'the results differ with display')
    for a, b in zip(rs, gs):
        bad = lm.same(a, b, skip=('psf', 'wcs'))
        out.expect(not bad, 'data', lambda: '%s of the data changed by the display' % bad)
    out.expect(rr == gr, 'rng', 'random numbers were used by the display')
    shows = [l for l in log if l[0] == 'show']
    out.trivial = not shows
    per = {'n': 0}
    for t in got:
        n = 0 if got[t] is None else len(got[t])
        per['n'] += n
    out.expect(len(shows) >= len(got), 'shown', '%d figures for %d types' % (len(shows), len(got)))
    out.outcome = (len(shows), per['n'])
    # the objects are marked where they are, in the last figure of each type with objects
    marks = [p for s in shows for f in s[1] for ax in f for p in ax['points'] if ax['images']]
    for t in got:
        if got[t] is None or case['run'] == 'phot':
            continue
        x = got[t]['col'] - got[t]['col_diff'] - c28.XY0[0]
        y = got[t]['row'] - got[t]['row_diff'] - c28.XY0[1]
        want = sorted(map(tuple, np.round(np.transpose([x, y]).astype('f8'), 2)))
        ok = any(len(m) == len(want) and np.allclose(sorted(map(tuple, m)), want, atol=0.5)
                 for m in marks)
        out.expect(ok, 'marks', lambda: 'the objects at %s are not marked: %s'
                   % (want, [m.tolist() for m in marks]))
    return out


# display functions


def exps(nb, k=0):
    afw_image._reset_planes()
    y, x = np.mgrid[:12, :15]
    es = []
    for b in range(nb):
        im = 20*np.exp(-((x - 4 - b - k)**2 + (y - 6 + b)**2)/9.0) + 0.3*((3*x + y*y + b) % 5)
        es.append(lm.exposure((12, 15), lm.BANDS[b], (30, -40), image=im,
                              var=0.5 + 0.01*((x*y + b) % 7), mask=((x + 2*y + b) % 4)*2))
    return lm.mbexp_of(es)


PEAKS = [(34, -34), (42, -36)]
POS = [(34.2, -33.6), (41.7, -36.1), (38.0, -30.4)]


def catalog(kind):
    """a catalogue and the positions of its objects in the image"""
    if kind is None:
        return None, []
    if kind in ('sources', 'list'):
        cat = lm.catalog([{'id': i + 1, 'peaks': [p], 'pix': lm.block(*p),
                           'cen': (p[0] + 0.25, p[1] - 0.5)} for i, p in enumerate(PEAKS)])
        return list(cat) if kind == 'list' else cat, [(x - 30, y + 40) for x, y in PEAKS]
    d = np.zeros(len(POS), dtype=[('row', 'f4'), ('col', 'f4'), ('row0', 'i4'), ('col0', 'i4'),
                                  ('gauss_flags', 'i4')])
    d['col'], d['row'] = np.transpose(POS)
    d['row0'], d['col0'] = -40, 30
    d['gauss_flags'] = [0, 4, 0]
    return d, [(x - 30, y + 40) for x, y in POS]


def is_points(points, want):
    return len(points) == len(want) and np.allclose(points, np.reshape(want, (-1, 2)), atol=1e-4)


def panel(out, p, mb, tag, title=None, pts=None, diff=None):
    """a panel shows all bands of these exposures"""
    ims = [e.image.array.astype('f8') for e in mb.singles]
    if diff is not None:
        ims = [a - e.image.array for a, e in zip(ims, diff.singles)]
    if not out.expect(len(p['images']) == 1, tag + 'image', '%d images' % len(p['images'])):
        return
    im = p['images'][0]
    if len(ims) >= 3:
        ok = im.shape == ims[0].shape + (3,) and all(
            follows(im[..., k], np.clip(ims[k], 0, None)) or
            ims[k].max() <= 0 for k in range(3))
    else:
        tot = sum(ims)
        noise = np.sqrt(np.median([e.variance.array for e in mb.singles]))
        ok = follows(im, np.clip(tot, 0.1*noise, None)) or (
            diff is not None and np.allclose(im, np.log(np.clip(tot, 0.1*noise, None)), atol=1e-4))
    out.expect(ok, tag + 'image', 'another image is shown')
    if title is not None:
        out.expect(p['title'] == title, tag + 'title', 'title %r expected %r' % (p['title'], title))
    if pts is not None:
        ok = not p['points'] if not len(pts) else len(p['points']) == 1 and is_points(
            p['points'][0], pts)
        out.expect(ok, tag + 'marks', lambda: 'marks at %s expected %s' % (p['points'], pts))


def run_display(case):
    out = Out(outcome=(case['fn'], case.get('nb')))
    nb = case.get('nb', 1)
    mb, mb2, mb3 = exps(nb), exps(nb, 3), exps(nb, 5)
    before = [lm.snaps(m) for m in (mb, mb2, mb3)]
    cat, pts = catalog(case.get('cat'))
    fn, mess = case['fn'], case.get('mess')
    kw = {}
    with screen() as log:
        try:
            display(out, case, log, fn, nb, mb, mb2, mb3, cat, pts, mess, kw)
        except Exception as e:
            out.bad('error:' + fn, '%s of %s: %r' % (fn, {k: v for k, v in case.items()
                                                          if k != 'fn'}, e))
    for m, s in zip((mb, mb2, mb3), before):
        for a, b in zip(lm.snaps(m), s):
            out.expect(not lm.same(a, b), 'data:' + fn, 'the data are changed by the display')
    return out


def display(out, case, log, fn, nb, mb, mb2, mb3, cat, pts, mess, kw):
    tag = fn + ':'

    def figure(n=1):
        sh = [l for l in log if l[0] == 'show']
        ok = out.expect(len(sh) == n, tag + 'shown', 'shown %d times' % len(sh))
        if n and ok:
            out.expect(len(sh[0][1]) == 1, tag + 'shown', '%d figures' % len(sh[0][1]))
        return sh[0][1][0] if n and ok else None
    if fn == 'show_mbexp':
        if case['ax']:
            fig0, kw['ax'] = plt.subplots()
        ax = vis.show_mbexp(mb, sources=cat, mess=mess, show=case['show'], **kw)
        if case['ax']:
            out.expect(ax is kw['ax'], tag + 'axis', 'another axis is returned')
        f = figure() if case['show'] else (figure(0), read(ax.figure))[1]
        if f:
            panel(out, f[0], mb, tag, mess or '', pts)
    elif fn == 'show_mbexp_each_band':
        vis.show_mbexp_each_band(mb, sources=cat)
        f = figure()
        if f and out.expect(len(f) == 3*nb, tag + 'panels', '%d panels' % len(f)):
            for b, e in enumerate(mb.singles):
                panel(out, f[3*b], lm.mbexp_of([e]), tag, None, pts)
                for k, a in ((1, e.variance.array), (2, e.mask.array)):
                    p = f[3*b + k]
                    out.expect(len(p['images']) == 1 and np.array_equal(p['images'][0], a),
                               tag + 'plane', 'band %d: another plane is shown' % b)
                    out.expect(p['title'].startswith('band %d' % b), tag + 'title', p['title'])
    elif fn == 'show_multi_mbobs':
        obs = mm.make_mbobs((9, 11), [meta.STATES['holes']]*nb)
        s = mm.snap(obs)
        vis.show_multi_mbobs(obs)
        f = figure()
        if f:
            for b in range(nb):
                for t in ('image', 'weight', 'bmask'):
                    ps = [p for p in f if p['title'] == 'band %d %s' % (b, t)]
                    out.expect(len(ps) == 1 and len(ps[0]['images']) == 1 and np.array_equal(
                        ps[0]['images'][0], getattr(obs[b][0], t)), tag + 'panel',
                        '%s of band %d is not shown' % (t, b))
        out.expect(mm.same_snap(s, mm.snap(obs)), 'data:' + fn, 'the data are changed')
    elif fn == 'show_image_and_mask':
        vis.show_image_and_mask(mb, band=case['band'])
        f = figure()
        if f and out.expect(len(f) == 2, tag + 'panels', '%d panels' % len(f)):
            e = mb.singles[case['band']]
            panel(out, f[0], lm.mbexp_of([e]), tag)
            out.expect(np.array_equal(f[1]['images'][0], e.mask.array), tag + 'mask', 'other mask')
    elif fn == 'show_image':
        im = mb.singles[0].image.array
        vis.show_image(im, cat=cat)
        f = figure()
        if f:
            out.expect(np.array_equal(f[0]['images'][0], im), tag + 'image', 'another image')
            if cat is not None:
                want = list(zip(cat['col'], cat['row']))
                bad = [w for w, g in zip(want, cat['gauss_flags']) if g]
                p = f[0]['points']
                out.expect(len(p) == 2 and is_points(p[0], want) and is_points(p[1], bad),
                           tag + 'marks', 'marks at %s' % (p,))
    elif fn == 'compare_mbexp':
        m = [e.image.array.copy() for e in mb2.singles] if case['aslist'] else mb2
        vis.compare_mbexp(mb, m, sources=cat)
        f = figure()
        if f:
            on = [p for p in f if p['on']]
            if out.expect(len(on) == 3, tag + 'panels', '%d panels' % len(on)):
                panel(out, on[0], mb, tag, 'data', pts)
                panel(out, on[1], mb2, tag, 'model', pts)
                panel(out, on[2], mb, tag, 'data - model', pts, diff=mb2)
    elif fn == 'show_three_mbexp':
        lab = ['a', 'b', 'c'] if case['labels'] else None
        vis.show_three_mbexp([mb, mb2, mb3], labels=lab)
        f = figure()
        if f:
            on = [p for p in f if p['on']]
            if out.expect(len(on) == 3, tag + 'panels', '%d panels' % len(on)):
                for k, m in enumerate((mb, mb2, mb3)):
                    panel(out, on[k], m, tag, lab[k] if lab else 'image %d' % (k + 1), [])
    elif fn == 'show_mbexp_mosaic':
        n = case['n']
        lst = [exps(nb, k) for k in range(n)]
        lab = ['l%d' % k for k in range(n)] if case['labels'] else None
        fig, axs = vis.show_mbexp_mosaic(lst, labels=lab, title=mess, show=case['show'])
        f = figure() if case['show'] else (figure(0), read(fig))[1]
        if f:
            on = [p for p in f if p['on']]
            if out.expect(len(on) == n, tag + 'panels', '%d panels for %d' % (len(on), n)):
                for k, m in enumerate(lst):
                    panel(out, on[k], m, tag, lab[k] if lab else 'im%d' % k, [])
    elif fn == 'show_mbexp_demo':
        vis.show_mbexp_demo(mb)
        f = figure()
        if f and out.expect(len(f) == 9, tag + 'panels', '%d panels' % len(f)):
            ts = set()
            for p in f:
                ts.add(p['title'])
                panel(out, p, mb, tag, None, [])
            out.expect(len(ts) == 9, tag + 'title', 'titles %s' % sorted(ts))
    elif fn == 'show_exp':
        import lsst.afw.display as d
        del d.SHOWN[:]
        e = mb.singles[0]
        src = cat
        vis.show_exp(e, mess=mess, use_mpl=case['mpl'], sources=src)
        if not case['mpl']:
            out.expect(len(d.SHOWN) == 1 and d.SHOWN[0] is e and [l[0] for l in log] == ['input'],
                       tag + 'ds9', 'not shown once: %s' % log)
            out.expect(not mess or mess in log[0][1][0], tag + 'title', 'no message')
            return
        f = figure()
        if f and out.expect(len(f) == 3, tag + 'panels', '%d panels' % len(f)):
            want = [] if cat is None else [(p[0] + 0.25 - 30, p[1] - 0.5 + 40) for p in PEAKS]
            panel(out, f[0], lm.mbexp_of([e]), tag, None, want)
            for k, a in ((1, e.variance.array), (2, e.mask.array)):
                out.expect(np.array_equal(f[k]['images'][0], a), tag + 'plane', 'other plane')


def warmup():
    run_core(dict(bands=['ok'], fit='wmom', shear=None, det=None, idx=[0]))


def spaces(tier):
    th = tier == 'thorough'
    runs, ls, fns = [], [], []
    for fit in meta.FITS:
        for bs, s, d in ((['ok'], None, None), (['holes', 'ok'], [[1], [0, 1]], [[0], [1]]),
                         (['nomf', 'ok', 'ok'], [[0, 2]], [[1]])):
            for idx in ([0, 1], [2], []):
                if th or idx or fit == 'wmom':
                    runs.append(dict(bands=bs, fit=fit, shear=s, det=d, idx=idx))
    for run_ in ('mdet', 'phot'):
        for nb in (1, 2, 3, 4) if th else (1, 2, 3):
            for deb in ('sdss', 'scarlet'):
                for plan in c28.PLANS:
                    for sky in (0, 1):
                        if th or not sky or plan == 'blend':
                            ls.append(dict(run=run_, nb=nb, deblender=deb, plan=plan, sky=sky,
                                           types=['1p', 'noshear'], stamp_size=9))
    cats = (None, 'sources', 'list', 'array')
    for nb in (1, 2, 3, 4):
        for cat in cats:
            for mess in (None, 'here'):
                for show in (True, False):
                    for ax in (0, 1):
                        fns.append(dict(fn='show_mbexp', nb=nb, cat=cat, mess=mess, show=show, ax=ax))
            fns.append(dict(fn='show_mbexp_each_band', nb=nb, cat=cat))
            for a in (0, 1):
                fns.append(dict(fn='compare_mbexp', nb=nb, cat=cat, aslist=a))
        fns.append(dict(fn='show_multi_mbobs', nb=nb))
        for b in range(nb):
            fns.append(dict(fn='show_image_and_mask', nb=nb, band=b))
        for lab in (0, 1):
            fns.append(dict(fn='show_three_mbexp', nb=nb, labels=lab))
            for n in range(1, 7 if th else 6):
                for show in (True, False):
                    fns.append(dict(fn='show_mbexp_mosaic', nb=nb, n=n, labels=lab, show=show,
                                    mess='t' if lab else None))
        if nb >= 3:
            fns.append(dict(fn='show_mbexp_demo', nb=nb))
    for cat in (None, 'array'):
        fns.append(dict(fn='show_image', cat=cat))
    for mpl in (False, True):
        for mess in (None, 'here'):
            for cat in (None, 'sources'):
                fns.append(dict(fn='show_exp', mpl=mpl, mess=mess, cat=cat))
    return [Space('runs', runs, run_core), Space('lsst-runs', ls, run_lsst),
            Space('figures', fns, run_display)]
