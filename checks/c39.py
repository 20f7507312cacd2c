"""C39: runs in several threads of one process do not disturb each other."""
import contextlib
import io
import warnings
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from mc import mdmodel as mm
from mc import threads
from ngmix import env
from metadetect.lsst.metadetect import run_metadetect
from metadetect.lsst.photometry import run_photometry
from metadetect.lsst import util
from metadetect.lsst import configs
from metadetect.lsst import masking as lsst_masking
from metadetect.lsst import metacal_exposures as mx
from metadetect.lsst import skysub
from metadetect.masking import apply_foreground_masking_corrections
from metadetect.masking import make_foreground_apodization_mask, make_foreground_bmask
from metadetect.interpolate import interpolate_image_at_mask
from metadetect.metadetect import do_metadetect
from metadetect import procflags, shearpos
from . import c21, c23, c27, c28, c33

PROPERTY = 'C39'
LEVEL = 'model_checking'
RULE = ('two threads, one running at a time: the first is stopped before a line of the package '
        'which it executes, the other runs, to its end or (small runs) up to a line of its own, '
        'then they finish. Quick: two runs of the same kind, each line in at least one run of '
        'the menu, counted apart for own and shared data; thorough: the first, second and last '
        'execution of each line in every run, and also pairs of different runs. States are '
        '(pair, own or shared data, position of the first thread, of the second)')
ASSUMPTIONS = ['a thread is interrupted between lines of Python code of the package, not within '
               'compiled code; the stand-ins for the libraries keep no state between calls']
OK, HOLES, NOMF = c21.OK, c21.HOLES, c21.NOMF


# each maker gives (data, body(data, v)); v: which of the two threads
def core(bands, dims=(18, 16), color=False, shear=None, det=None, **cfg):
    def data(v):
        mb = mm.make_mbobs(dims, bands, flip=bool(v))
        c = {'model': 'wmom', 'weight': {'fwhm': 1.2}, 'meds': dict(mm.MEDS),
             'metacal': {'psf': 'gauss', 'types': ['noshear', '1p']}}
        c.update(cfg)
        if 'fitters' in c:
            del c['model'], c['weight']
        if v:
            # other weights, in another proportion
            for b in range(len(bands)):
                for obs in mb[b]:
                    obs.set_weight(obs.weight*(1.5 + b))
        return c, mb, {'red': c21.dep_mbobs(mb, 'red')} if color else None

    def body(d, v):
        c, mb, dep = d
        kw = {}
        if color:
            kw = dict(color_key_func=lambda f: 'red' if f[0] > 60 + v else None,
                      color_dep_mbobs=dep)
        return do_metadetect(c, mb, np.random.RandomState(5 + v), shear_band_combs=shear,
                             det_band_combs=det, **kw)
    return data, body


def lsst(fn, **kw):
    def data(v):
        case = dict(c28.BASE, **kw)
        mb, nmb, mf, orm = c28.build(case)
        for e in mb.singles:
            e.image.array[:, :] *= 1 + 0.25*v
            e.variance.array[:, :] *= (1 + 0.25*v)**2
        if v:
            for o in orm:
                o[:, :] |= 2**12
        config = c28.make_config(case)
        if fn != 'mdet':
            config.pop('metacal', None)
        return mb, nmb, mf, orm, config

    def body(d, v):
        mb, nmb, mf, orm, config = d
        rng = np.random.RandomState(11 + v)
        if fn == 'mdet':
            return run_metadetect(mb, nmb, rng, mf, orm, config)
        return run_photometry(mb, rng, mf, orm, config)
    return data, body


def d_masking(v):
    return mm.make_mbobs((17, 17), c21.B3, flip=bool(v))


def b_masking(mb, v):
    apply_foreground_masking_corrections(
        mbobs=mb, xm=np.array([5.0 + v, 12.0]), ym=np.array([4.0, 11.0]), rm=np.array([3.0, 3.5]),
        method=('interp-noise', 'apodize')[v], mask_expand_rad=1.0 + v, mask_bit_val=2**20,
        expand_mask_bit_val=2**21, interp_bit_val=2**22, symmetrize=bool(v), ap_rad=0.5 + v,
        iso_buff=1, rng=np.random.RandomState(9 + v))
    return mm.snap(mb)


def b_masking_same(mb, v):
    apply_foreground_masking_corrections(
        mbobs=mb, xm=np.array([5.0 + v, 12.0]), ym=np.array([4.0, 11.0]), rm=np.array([3.0, 3.5]),
        method='interp', mask_expand_rad=1.0, mask_bit_val=2**20, expand_mask_bit_val=2**21,
        interp_bit_val=2**22, symmetrize=False, ap_rad=0.5, iso_buff=1,
        rng=np.random.RandomState(9 + v))
    return mm.snap(mb)


def d_interp(v):
    im = np.arange(120.0).reshape(10, 12) % (17 + v)
    bad = np.zeros((10, 12), bool)
    bad[2:7, 3 + v:9 + v] = True
    return im, bad


def b_interp(d, v):
    return [interpolate_image_at_mask(image=d[0], bad_msk=d[1], fill_isolated_with_noise=True,
                                      weight=4.0, rng=np.random.RandomState(5 + v)),
            interpolate_image_at_mask(image=d[0], bad_msk=d[1], maxfrac=0.9 - 0.8*v)]


def d_replace(v):
    mb = c23.make(2)
    for e in mb.singles:
        e.image.array[:, :] += 1000*v
    return mb, lm.catalog(c23.cat(('overlap', 'blend')[v]))


def b_replace(d, v):
    mb, sources = d
    seen = []
    with util.MultibandNoiseReplacer(mb, sources, np.random.RandomState(8 + v)) as r:
        seen += [e.image.array.copy() for e in mb.singles]
        for s in sources:
            with r.sourceInserted(s.getId()):
                seen += [e.image.array.copy() for e in mb.singles]
    return seen, mb


def d_shear(v):
    case = dict(C27, types=['1p'])
    return c27.build(case)[0], c27.build(case, noise=True)[0]


C27 = {'dims': (35, 41), 'xy0': (3, -4), 'nb': 1, 'wcs': 'rot', 'off': (1, 2), 'obj': 1}


def b_shear(d, v):
    return mx.get_metacal_mbexps_fixnoise(d[0], d[1], types=[['1p'], ['2m']][v])


def d_bright(v):
    es, n, mf = c23.make(2), c23.make(2), c23.make(2)
    for x in es, n:
        for e in x.singles:
            e.image.array[:, :] *= 1 + v
    cat = np.zeros(2, dtype=[('ra', 'f8'), ('dec', 'f8'), ('radius_pixels', 'f8')])
    w = es.singles[0].getWcs()
    for k, (x, y) in enumerate([(35.2 + v, 4.1), (47.3, 9.2 - v)]):
        p = w.pixelToSky(x, y)
        cat['ra'][k], cat['dec'][k] = p.getRa().asDegrees(), p.getDec().asDegrees()
        cat['radius_pixels'][k] = 3 + k + v
    return es, n, mf, [np.zeros(c23.DIMS, 'i4') for _ in range(2)], cat


def b_bright(d, v):
    es, n, mf, orm, cat = d
    lsst_masking.apply_apodized_bright_masks_mbexp(
        mbexp=es, noise_mbexp=n, mfrac_mbexp=mf, ormasks=orm, bright_info=cat)
    lsst_masking.apply_apodized_edge_masks_mbexp(
        mbexp=es, noise_mbexp=n, mfrac_mbexp=mf, ormasks=orm)
    return es, n, mf, orm


def d_sky(v):
    mb = c28.build(dict(c28.BASE, plans=['two'], sky=1))[0]
    for e in mb.singles:
        e.image.array[:, :] *= 1 + v
    return mb


def b_sky(mb, v):
    skysub.iterate_detection_and_skysub(mb.singles[0], thresh=4 + v, niter=2 + v)
    skysub.subtract_sky_mbexp(mb, thresh=5 + v)
    return mb


def b_small(d, v):
    """functions without data"""
    jac = mm.make_mbobs((9, 9), [OK])[0][0].jacobian
    res = [configs.get_config({'stamp_size': 31 + v, 'detect': {'thresh': 3.0 + v}}),
           configs.get_config(),
           procflags.get_procflags_str(2**(20 + v) | 2**25),
           shearpos.unshear_positions(np.array([3.0 + v]), np.array([4.0]), ('1p', '2m')[v], jac,
                                      (9, 9), step=0.02)]
    kw = dict(xm=np.array([3.0 + v, 1.0]), ym=np.array([2.0, 5.0]), rm=np.array([2.0, 3.0 - v]),
              dims=(9, 9))
    res.append(make_foreground_apodization_mask(symmetrize=bool(v), ap_rad=1.0, **kw))
    res.append(make_foreground_bmask(symmetrize=False, mask_bit_val=2**v, **kw))
    return res


TARGETS = {
    'wmom': core([OK, HOLES], shear=[[0], [0, 1]]),
    'pgauss-reg': core(c21.B3, shear=[[1, 2]], det=[[0, 1]], model='pgauss',
                       weight={'fwhm': 2.0, 'fwhm_reg': 0.8}),
    'am': core([NOMF, OK], shear=[[1, 0]], model='am'),
    'gauss': core([OK, NOMF], model='gauss', coadd=False),
    'gauss-coadd': core([OK, NOMF], model='gauss', coadd=True),
    'two': core([OK], fitters=[{'model': 'am', 'symmetrize': True},
                               {'model': 'wmom', 'weight': {'fwhm': 1.2}}]),
    'colour': core([OK, HOLES], shear=[[0, 1]], color=True),
    'masking': (d_masking, b_masking),
    'masking-same': (d_masking, b_masking_same),
    'interp': (d_interp, b_interp),
    'replace': (d_replace, b_replace),
    'shear': (d_shear, b_shear),
    'bright': (d_bright, b_bright),
    'sky': (d_sky, b_sky),
    'small': (lambda v: None, b_small),
    'mdet': lsst('mdet', plans=['blend'], nb=2, types=['1p']),
    'mdet-scarlet': lsst('mdet', plans=['blend'], deblender='scarlet', reconv='gauss', sky=1,
                         types=['noshear'], thresh=3.0, fwhm=1.5),
    'phot': lsst('phot', plans=['blend'], nb=2, stamp_size=11, sky=1),
    'phot-scarlet': lsst('phot', plans=['two'], nb=1, deblender='scarlet'),
}
#: the same data may be used by both threads, as runs leave their data alone (but for the
#: results of the psf fits, which are kept with the data: so the same random numbers)
SHARED = ('wmom', 'pgauss-reg', 'am', 'gauss', 'gauss-coadd', 'two', 'colour', 'interp', 'shear')
SMALL = ('interp', 'replace', 'bright', 'small', 'sky')
OTHER = {'wmom': 'am', 'am': 'gauss', 'gauss': 'pgauss-reg', 'mdet': 'phot', 'phot': 'masking',
         'two': 'wmom', 'masking': 'masking-same', 'bright': 'replace', 'sky': 'mdet'}


@contextlib.contextmanager
def setting():
    c33.prepare()
    with env.use(c33.handler), contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def value(res):
    return b'|'.join(c33.flat(res))


_alone = {}


def alone(name, v):
    """the result of a run on its own, and the lines it executes"""
    k = (name, v)
    if k not in _alone:
        data, body = TARGETS[name]
        with setting():
            body(data(v), v)     # compiled and imported
            d = data(v)
            t = threads.trace_of(lambda: body(d, v))
            if t.error[0] is not None:
                raise t.error[0]
            _alone[k] = value(t.result[0]), t.trace
    return _alone[k]


def positions(trace, last=False, skip=None):
    """(number of points before) the first, second, last execution of every line; lines in
    skip are left out, the others are added there"""
    seen = {}
    for i, loc in enumerate(trace):
        seen.setdefault(loc, []).append(i + 1)
    res = set()
    for loc, v in seen.items():
        if skip is not None and loc in skip:
            continue
        if skip is not None:
            skip.add(loc)
        res.add(v[0])
        if last:
            res.update((v[min(1, len(v) - 1)], v[-1]))
    return sorted(res)


def run(case):
    a, b = case['runs']
    out = Out(steps=2 + len(case['plan']))
    # on shared data the same run twice: the psf measurements are kept with the data
    w = 0 if case['shared'] else 1
    want = [alone(a, 0)[0], alone(b, w)[0]]
    with setting():
        da = TARGETS[a][0](0)
        db = da if case['shared'] else TARGETS[b][0](1)
        t = threads.Threads([lambda: TARGETS[a][1](da, 0), lambda: TARGETS[b][1](db, w)],
                            case['plan'])
        ended = t.run()
    if not out.expect(ended, 'ends', 'the runs do not end'):
        return out
    for k, n in enumerate(case['runs']):
        if not out.expect(t.error[k] is None, 'raises', lambda: '%s raises %r in one thread, with '
                          '%s in another' % (n, t.error[k], case['runs'][1 - k])):
            continue
        out.expect(value(t.result[k]) == want[k], 'result', 'the result of %s in one thread '
                   'depends on %s in another' % (n, case['runs'][1 - k]))
    out.states.append((a, b, case['shared'], tuple(map(tuple, case['plan']))))
    out.outcome = (a, b, case['shared'], t.switches)
    return out


RACE = """
cell = [0]
def body(v):
    cell[0] = v
    x = v
    return cell[0]
"""


def canary():
    """the scheduler finds the race of RACE, and at the right places"""
    ns = {}
    exec(compile(RACE, threads.REPO + '/race.py', 'exec'), ns)
    bad = []
    for i in range(1, 4):
        t = threads.Threads([lambda: ns['body'](1), lambda: ns['body'](2)], [(0, i)])
        assert t.run()
        if t.result != [1, 2]:
            bad.append(i)
    assert bad == [2, 3], bad


def spaces(tier):
    canary()
    th = tier == 'thorough'
    one, two = [], []
    skip = {False: None, True: None} if th else {False: set(), True: set()}
    for a in sorted(TARGETS, key=lambda t: len(alone(t, 0)[1])):
        for shared in (False, True) if a in SHARED else (False,):
            ps = positions(alone(a, 0)[1], th, skip[shared])
            for b in [a] + ([OTHER[a]] if a in OTHER and not shared and th else []):
                for i in ps:
                    one.append({'runs': [a, b], 'shared': shared, 'plan': [[0, i]]})
        if a in SMALL:
            for b in (a,) + tuple(x for x in SMALL if x != a and th):
                for i in positions(alone(a, 0)[1]):
                    for j in positions(alone(b, 1)[1]):
                        two.append({'runs': [a, b], 'shared': False, 'plan': [[0, i], [1, j]]})
    return [Space('one-switch', one, run), Space('two-switches', two, run)]
