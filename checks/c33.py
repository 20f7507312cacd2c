"""C33: results depend on the inputs, the configuration and the random state only."""
import contextlib
import hashlib
import io
import itertools
import json
import os
import pickle
import random
import subprocess
import sys
import warnings
import galsim
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from mc import mdmodel as mm
from ngmix import env
import lsst.afw.image as afw_image
from metadetect.metadetect import do_metadetect
from metadetect.masking import apply_foreground_masking_corrections
from metadetect.interpolate import interpolate_image_at_mask
from metadetect.lsst import util
from metadetect.lsst import metacal_exposures as mx
from metadetect.lsst import masking as lsst_masking
from metadetect.lsst.metadetect import run_metadetect
from metadetect.lsst.photometry import run_photometry
from . import c21, c23, c27, c28

PROPERTY = 'C33'
LEVEL = 'model_checking'
RULE = ('every run of the menu after every history of runs up to the depth bound, with two states '
        'of the global generators, each in its own process forked from one in which nothing was '
        'run; and in fresh interpreters with hash seeds that cover every iteration order of the '
        'sets of band and type names; results are compared bitwise with the run on its own')
ASSUMPTIONS = ['fits depend on the random numbers drawn for their guesses; mask planes are '
               'registered before the runs']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANES = ['DETECTED', 'DETECTED_NEGATIVE', 'THISDET', 'OTHERDET', 'BRIGHT', 'BRIGHT_EXPANDED',
          'APODIZED_EDGE', 'EDGE', 'CROSSTALK', 'NOT_DEBLENDED']


def handler(kind, info):
    if kind == 'guess':
        # as in the real library there is no default random state
        return float(info['rng'].uniform(-1, 1))
    if kind == 'metacal' and info['rng'] is None:
        return ValueError('metacal without random state')
    if kind == 'gauss_target_psf':
        sig = np.sqrt(-2*np.log(abs(info['psf'].kValue(1.0, 0))/info['psf'].flux))
        return galsim.Gaussian(sigma=1.3*sig, flux=info['psf'].flux)
    if kind == 'lsst.detect':
        return c28.plan_answer('blend')
    if kind == 'lsst.background':
        e = info['exposure']
        return 0.01*float(np.mean(e.image.array))
    return None


def core(bands, shear=None, det=None, rng=3, color=False, **cfg):
    c = {'model': 'wmom', 'weight': {'fwhm': 1.2}, 'meds': dict(mm.MEDS),
         'metacal': {'psf': 'gauss', 'types': ['noshear', '1p', '1m']}}
    c.update(cfg)
    if 'fitters' in c:
        del c['model'], c['weight']
    mb = mm.make_mbobs((18, 16), bands)
    kw = {}
    if color:
        kw = dict(color_key_func=lambda f: 'red' if f[0] > 60 else None,
                  color_dep_mbobs={'red': c21.dep_mbobs(mb, 'red')})
    return do_metadetect(c, mb, np.random.RandomState(rng), shear_band_combs=shear,
                         det_band_combs=det, **kw)


def t_masking():
    mb = mm.make_mbobs((18, 16), c21.B3)
    apply_foreground_masking_corrections(
        mbobs=mb, xm=np.array([5.0, 12.0]), ym=np.array([4.0, 11.0]), rm=np.array([3.0, 3.5]),
        method='interp-noise', mask_expand_rad=1.0, mask_bit_val=2**20, expand_mask_bit_val=2**21,
        interp_bit_val=2**22, symmetrize=False, ap_rad=0.5, iso_buff=1,
        rng=np.random.RandomState(9))
    return mm.snap(mb)


def t_interp():
    im = np.arange(120.0).reshape(10, 12) % 17
    bad = np.zeros((10, 12), bool)
    bad[2:7, 3:9] = True
    return interpolate_image_at_mask(image=im, bad_msk=bad, fill_isolated_with_noise=True,
                                     weight=4.0, rng=np.random.RandomState(5))


def t_replace():
    sources = lm.catalog(c23.cat('overlap'))
    mb = c23.make(2)
    seen = []
    with util.MultibandNoiseReplacer(mb, sources, np.random.RandomState(8)) as r:
        seen += [e.image.array.copy() for e in mb.singles]
        for s in sources:
            with r.sourceInserted(s.getId()):
                seen += [e.image.array.copy() for e in mb.singles]
    return seen, mb


class Detector(object):
    def getAmplifiers(self):
        return [self, self]

    def getGain(self):
        return 500.0


def t_noise_image():
    e = c23.make(1).singles[0]
    e.setDetector(Detector())
    return [util.get_noise_image(e, rng=np.random.RandomState(2), remove_poisson=p).image.array.copy()
            for p in (False, True)]


def t_shear():
    case = dict(C27, types=['1p', 'noshear', '2m'])
    mb, nmb = c27.build(case)[0], c27.build(case, noise=True)[0]
    res = mx.get_metacal_mbexps_fixnoise(mb, nmb, types=list(case['types']))
    return res


C27 = {'dims': (35, 41), 'xy0': (3, -4), 'nb': 2, 'wcs': 'rot', 'off': (1, 2), 'obj': 1}


def lsst(fn, **kw):
    def f():
        case = dict(c28.BASE, **kw)
        mb, nmb, mf, orm = c28.build(case)
        config = c28.make_config(case)
        rng = np.random.RandomState(11)
        if fn == 'mdet':
            return run_metadetect(mb, nmb, rng, mf, orm, config)
        config.pop('metacal', None)
        return run_photometry(mb, rng, mf, orm, config)
    return f


def t_bright():
    es = c23.make(2)
    n = c23.make(2)
    cat = np.zeros(2, dtype=[('ra', 'f8'), ('dec', 'f8'), ('radius_pixels', 'f8')])
    w = es.singles[0].getWcs()
    for k, (x, y) in enumerate([(35.2, 4.1), (47.3, 9.2)]):
        p = w.pixelToSky(x, y)
        cat['ra'][k], cat['dec'][k] = p.getRa().asDegrees(), p.getDec().asDegrees()
        cat['radius_pixels'][k] = 3 + k
    orm = [np.zeros(c23.DIMS, 'i4') for _ in range(2)]
    mf = c23.make(2)
    lsst_masking.apply_apodized_bright_masks_mbexp(
        mbexp=es, noise_mbexp=n, mfrac_mbexp=mf, ormasks=orm, bright_info=cat)
    lsst_masking.apply_apodized_edge_masks_mbexp(
        mbexp=es, noise_mbexp=n, mfrac_mbexp=mf, ormasks=orm)
    return es, n, mf, orm


OK, HOLES, NOMF = c21.OK, c21.HOLES, c21.NOMF
TARGETS = {
    'wmom': lambda: core([OK, HOLES], [[0], [0, 1]]),
    'reg': lambda: core(c21.B3, [[1, 2], [0]], [[0, 1], [2]], model='pgauss',
                        weight={'fwhm': 2.0, 'fwhm_reg': 0.8}),
    'am': lambda: core(c21.B3, [[2, 0]], model='am'),
    'gauss': lambda: core([OK, NOMF], model='gauss', coadd=False),
    'two': lambda: core([OK, HOLES], fitters=[{'model': 'am', 'symmetrize': True},
                                              {'model': 'wmom', 'weight': {'fwhm': 1.2}}]),
    'colour': lambda: core([OK, HOLES], [[0, 1], [1]], color=True),
    'masking': t_masking,
    'interp': t_interp,
    'replace': t_replace,
    'noise': t_noise_image,
    'shear': t_shear,
    'bright': t_bright,
    'mdet': lsst('mdet', plans=['blend'], nb=3, shear=['i', 'g']),
    'mdet-scarlet': lsst('mdet', plans=['blend'], deblender='scarlet', reconv='gauss', sky=1,
                         types=['2p', 'noshear'], thresh=3.0, fwhm=1.5),
    'phot': lsst('phot', plans=['blend'], nb=3, stamp_size=11, sky=1),
    'phot-scarlet': lsst('phot', plans=['blend'], nb=2, deblender='scarlet'),
}


def flat(x, seen=None):
    """everything in a result as a list of bytes"""
    if x is None or isinstance(x, (bool, int, float, str, np.generic)):
        return [repr(x).encode()]
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return [b for n in sorted(x.dtype.names) for b in [n.encode()] + flat(x[n])]
        if x.dtype.kind == 'O':
            return [b for v in x.ravel() for b in flat(v)]
        return [str(x.shape).encode() + x.dtype.str.encode() + np.ascontiguousarray(x).tobytes()]
    if isinstance(x, dict):
        return [b for k in sorted(x, key=str) for b in [str(k).encode()] + flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [b for v in x for b in [b'['] + flat(v)]
    if hasattr(x, 'singles'):
        return flat([e for e in x.singles])
    if hasattr(x, 'maskedImage'):
        return flat([x.image.array, x.variance.array, x.mask.array,
                     x.getPsf().computeKernelImage(x.getBBox().getCenter()).array])
    raise TypeError('result of type %s' % type(x))


def globals_state():
    return (hashlib.md5(pickle.dumps(np.random.get_state())).hexdigest(),
            hashlib.md5(repr(random.getstate()).encode()).hexdigest())


def prepare():
    afw_image._reset_planes()
    for p in PLANES:
        afw_image.Mask.addMaskPlane(p)


def perform(name):
    prepare()
    with env.use(handler), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = TARGETS[name]()
    bs = flat(res)
    return [hashlib.md5(b''.join(bs)).hexdigest(), sum(map(len, bs))]


def forked(fn):
    """the value of fn() in a child process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                ans = {'ok': fn()}
            except BaseException as e:
                import traceback
                ans = {'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])}
            with os.fdopen(w, 'w') as f:
                json.dump(ans, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        txt = f.read()
    os.waitpid(pid, 0)
    return json.loads(txt) if txt else {'error': 'no answer'}


REFERENCE = {}


def reference(name):
    if name not in REFERENCE:
        REFERENCE[name] = forked(lambda: perform(name))
    return REFERENCE[name]


def run(case):
    out = Out(steps=len(case['history']) + 1, trivial=not case['history'])
    ref = reference(case['target'])
    if not out.expect('ok' in ref, 'run', lambda: '%s raises %s' % (case['target'], ref['error'])):
        return out

    def go():
        for n in case['history']:
            perform(n)
        np.random.seed(case['seed'])
        random.seed(case['seed'])
        a = globals_state()
        d = perform(case['target'])
        return [d, a == globals_state()]
    ans = forked(go)
    if not out.expect('ok' in ans, 'run', lambda: '%s raises after %s: %s'
                      % (case['target'], case['history'], ans['error'])):
        return out
    d, same = ans['ok']
    out.expect(d == ref['ok'], 'history', 'the result of %s after %s differs from that on its own'
               % (case['target'], case['history']))
    out.expect(same, 'global-state', '%s changes the global random state' % case['target'])
    out.states.append((case['target'], tuple(case['history'])))
    out.outcome = (case['target'], d[1])
    return out


ORDERS = [['g', 'r', 'i'], ['noshear', '1p', '1m'], ['2p', 'noshear'], [0, 1, 2]]
PROBE = 'import json; print(json.dumps([list(set(x)) for x in json.loads(%r)]))'


def hash_seeds(cover):
    """hash seeds which show every iteration order of the sets of names"""
    seen, seeds = set(), []
    want = 6 + 6 + 2 + 1
    for s in range(1, 200):
        r = subprocess.run([sys.executable, '-S', '-c', PROBE % json.dumps(ORDERS)],
                           env={'PYTHONHASHSEED': str(s)}, capture_output=True, text=True)
        new = {(i, tuple(o)) for i, o in enumerate(json.loads(r.stdout))} - seen
        if new or s <= cover:
            seeds.append(s)
            seen |= new
        if len(seen) >= want and s >= cover:
            break
    return seeds


def run_hash(case):
    out = Out(outcome=case['hashseed'])
    e = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']))
    r = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r)\n'
                        'import mc.setup_env\nfrom checks import c33\nc33.print_all()' % HERE],
                       env=e, capture_output=True, text=True, cwd=HERE)
    if not out.expect(r.returncode == 0, 'run', lambda: r.stderr[-2000:]):
        return out
    got = json.loads(r.stdout.strip().splitlines()[-1])
    out.steps = len(TARGETS)
    for n in TARGETS:
        ref = reference(n)
        if 'ok' not in ref or 'ok' not in got[n]:
            out.expect(('ok' in ref) == ('ok' in got[n]), 'run', '%s: %s %s' % (n, ref, got[n]))
            continue
        out.expect(got[n]['ok'] == ref['ok'], 'hash-order',
                   '%s depends on the iteration order of sets' % n)
    return out


def print_all():
    print(json.dumps({n: forked(lambda: perform(n)) for n in TARGETS}))


def spaces(tier):
    th = tier == 'thorough'
    names = list(TARGETS)
    cases = []
    for t in names:
        for s in (0, 12345):
            cases.append({'target': t, 'history': [], 'seed': s})
        for h in names:
            cases.append({'target': t, 'history': [h], 'seed': 1})
        if th:
            for h in itertools.product(names, repeat=2):
                cases.append({'target': t, 'history': list(h), 'seed': 1})
    hs = [{'hashseed': s} for s in hash_seeds(40 if th else 0)]
    return [Space('histories', cases, run), Space('hash-seeds', hs, run_hash)]
