"""C25: postage stamps and observations made from multi-band exposures."""
import contextlib
import io
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from lsst.pex.exceptions import LengthError
from lsst.meas.algorithms import FuncPsf
from metadetect.lsst import util
from metadetect.lsst.mbobs_extractor import MBObsExtractor
import lsst.geom as geom
import ngmix

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('every peak position of the image x stamp size x clipping, every offset of the measured '
        'position (also missing) x coordinate system, and every pattern of unusable variances up '
        'to the bound; the observation is compared pixel by pixel with the exposure')
ASSUMPTIONS = ['exposures, boxes and coordinate systems are stand-ins with the semantics of the '
               'stack']


def make(case, dims=(9, 11), xy0=(-4, 17)):
    es = []
    for i in range(case.get('nb', 2)):
        psf = lm.pos_psf(5, 1.0 + 0.1*i, 0.02)
        es.append(lm.exposure(dims, lm.BANDS[i], xy0, psf=psf, kind=case.get('kind', 'F'),
                              w=lm.wcs_menu(case.get('wcs', 'rot'), *xy0)))
        es[-1].variance.array[:, :] = (i + 1)*(1 + 0.01*np.arange(dims[0]*dims[1]).reshape(dims))
    return lm.mbexp_of(es)


def stampers(mb, cat, src):
    def a(n, clip):
        return util.get_stamp_mbobs(mb, src, n, clip=clip)

    def b(n, clip):
        return MBObsExtractor(mb, cat).get_mbobs(src.getId(), n, clip=clip)
    return (('get_stamp_mbobs', a), ('extractor', b))


def run(case):
    """window geometry"""
    out = Out()
    dims, xy0 = tuple(case['dims']), tuple(case['xy0'])
    mb = make(case, dims, xy0)
    before = lm.snaps(mb)
    x, y = xy0[0] + case['x'], xy0[1] + case['y']
    off = case['off']
    # without a measured position the peak is used
    spec = dict(id=5, pix=[(x, y)], peak=(x, y), cen=(x + off[0], y + off[1])
                if off is not None else (float('nan'), float('nan')))
    off = off or (0, 0)
    if case.get('peaks'):
        # the first peak is that of the object
        spec['peaks'] = [(x, y), (x + 1, y - 1), (x - 2, y)][:case['peaks']]
    if case['coord']:
        spec['wcs'] = mb.singles[0].getWcs()
    cat = lm.catalog([spec])
    src = cat.find(5)
    n, clip = case['size'], case['clip']
    h = n//2
    bx = [x - h, y - h, x + h, y + h]
    fits = (bx[0] >= xy0[0] and bx[1] >= xy0[1] and bx[2] < xy0[0] + dims[1]
            and bx[3] < xy0[1] + dims[0])
    if clip:
        bx = [max(bx[0], xy0[0]), max(bx[1], xy0[1]), min(bx[2], xy0[0] + dims[1] - 1),
              min(bx[3], xy0[1] + dims[0] - 1)]
    box = (bx[0], bx[1], bx[2] - bx[0] + 1, bx[3] - bx[1] + 1)
    for name, f in stampers(mb, cat, src):
        k = name + '-'
        try:
            got = f(n, clip)
        except LengthError:
            out.expect(not fits and not clip, k + 'refused', 'stamp that fits was refused')
            continue
        out.expect(fits or clip, k + 'accepted', 'stamp that does not fit was accepted')
        if not (fits or clip):
            continue
        out.expect(isinstance(got, ngmix.MultiBandObsList) and len(got) == len(mb.bands), k + 'n',
                   'wrong number of bands')
        where = (x + off[0], y + off[1]) if case['coord'] else (x, y)
        for i, band in enumerate(mb.bands):
            out.expect(len(got[i]) == 1 and got[i].meta.get('band') == band, k + 'band',
                       lambda: 'meta of band %s: %s' % (band, got[i].meta))
            lm.check_stamp(out, k, got[i][0], mb.singles[i], box, None, where,
                           (x + off[0], y + off[1]))
            pw = got[i][0].psf.weight
            out.expect(np.all(np.isfinite(pw)) and np.all(pw > 0) and
                       np.ptp(pw) <= 1e-3*pw.max(), k + 'psf-weight', lambda: repr(pw))
    if not clip:
        # stamps are not clipped unless asked for
        for name, f in (('get_stamp_mbobs', lambda: util.get_stamp_mbobs(mb, src, n)),
                        ('extractor', lambda: MBObsExtractor(mb, cat).get_mbobs(5, n)),
                        ('extractor-stamp', lambda: MBObsExtractor(mb, cat).get_stamp(5, n))):
            try:
                f()
                out.expect(fits, name + '-default', 'accepted what does not fit')
            except LengthError:
                out.expect(not fits, name + '-default', 'refused what fits')
    bb = util.get_bbox(mb, src, n, clip=True)
    if clip:
        out.expect((bb.beginX, bb.beginY, bb.width, bb.height) == box, 'bbox',
                   lambda: 'box %s expected %s' % (bb, box))
    try:
        util.get_bbox(mb, src, n)
        out.expect(fits, 'bbox-accepted', 'box that does not fit was accepted')
    except LengthError:
        out.expect(not fits, 'bbox-refused', 'box that fits was refused')
    for b, s in zip(before, lm.snaps(mb)):
        bad = lm.same(b, s)
        out.expect(not bad, 'input', lambda: '%s changed' % bad)
    out.outcome = (fits, clip, box[2] - n, box[3] - n)
    return out


def run_var(case):
    """weights from variances with unusable pixels"""
    out = Out()
    mb = make({'nb': 2, 'kind': case['kind']}, (5, 5), (3, 2))
    v = mb.singles[1].variance.array
    for k in case['bad']:
        v[k//5, k % 5] = case['value']
    src_cat = lm.catalog([dict(id=1, pix=[(5, 4)], peak=(5, 4), wcs=mb.singles[0].getWcs())])
    src = src_cat.find(1)
    n = 5 if case['all'] else 3
    if case['all']:
        v[:, :] = case['value']
    box = (3, 2, 5, 5) if n == 5 else (4, 3, 3, 3)
    sl = (slice(box[1] - 2, box[1] - 2 + n), slice(box[0] - 3, box[0] - 3 + n))
    ok = np.any(v[sl] > 0)
    for name, f in stampers(mb, src_cat, src):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                got = f(n, False)
        except util.AllZeroWeightError:
            out.expect(not ok, name + '-refused', 'data with weight were refused')
            continue
        out.expect(ok, name + '-accepted', 'data without any weight were accepted')
        if ok:
            for i in range(2):
                lm.check_stamp(out, name + '-', got[i][0], mb.singles[i], box, None, (5, 4), (5, 4))
    out.outcome = (bool(ok), len(case['bad']), case['value'])
    return out


def run_psf(case):
    """psf images that can not be used, position dependent psfs"""
    out = Out()
    mb = make({'nb': max(2, case['band'] + 1)})
    x, y = -4 + 5, 17 + 4
    cen = (x + case['off'], y - case['off'])
    asked = []

    def f(px, py):
        asked.append((px, py))
        if case['psf'] == 'none':
            return None
        if case['psf'] == 'flat':
            return np.ones((3, 5))
        if case['psf'] == 'even':
            return np.ones((4, 4))
        return lm.gauss(7, 1 + 0.01*px + 0.03*py)
    mb.singles[case['band']].setPsf(FuncPsf(f))
    cat = lm.catalog([dict(id=1, pix=[(x, y)], peak=(x, y), cen=cen,
                           wcs=mb.singles[0].getWcs())])
    for name, g in stampers(mb, cat, cat.find(1)):
        del asked[:]
        try:
            got = g(5, False)
        except Exception as e:
            out.expect(case['psf'] != 'ok', name + '-raised', 'good psf refused: %r' % e)
            if case['psf'] == 'none':
                out.expect(isinstance(e, util.MissingDataError), name + '-exception',
                           'missing psf raised %r' % e)
            continue
        out.expect(case['psf'] == 'ok', name + '-accepted', 'psf that can not be used accepted')
        out.expect(len(asked) > 0 and all(np.allclose(a, cen) for a in asked), name + '-position',
                   'psf was asked at %s, the object is at %s' % (asked, cen))
        for i in range(2):
            lm.check_psf(out, name + '-', got[i][0].psf, mb.singles[i], cen,
                         lm.jac_at(mb.singles[0].getWcs(), *cen))
    out.outcome = (case['psf'], case['band'])
    return out


def run_jac(case):
    """the local coordinate system everywhere in an exposure"""
    out = Out(outcome=(case['wcs'], case['x'], case['y']))
    e = lm.exposure((12, 15), 'i', (100, -30), w=lm.wcs_menu(case['wcs'], 90, -20))
    x, y = 100 + case['x'], -30 + case['y']
    j = util.get_jacobian(exp=e, cen=geom.Point2D(x, y))
    o = ngmix.Observation(np.zeros((3, 3)), jacobian=j)
    want = lm.jac_at(e.getWcs(), x, y)
    key = 'matrix'
    if case['wcs'] == 'sheared' and np.allclose(lm.jac_of(o), [
            want[3], want[1]*0 - want[2], -want[1], want[0]], atol=1e-7):
        # the known finding: rows and columns exchanged
        key = 'sheared-pixel-grid'
    out.expect(np.allclose(lm.jac_of(o), want, atol=1e-7), key,
               'jacobian %s, the sky has %s' % (lm.jac_of(o), want))
    out.expect(np.allclose(lm.jac_cen(o), (case['x'], case['y']), atol=1e-9), 'centre',
               'centre %s expected %s' % (lm.jac_cen(o), (case['x'], case['y'])))
    return out


def warmup():
    run({'dims': (9, 11), 'xy0': (-4, 17), 'x': 5, 'y': 4, 'size': 5, 'clip': False,
         'off': (0, 0), 'coord': True})


def spaces(tier):
    th = tier == 'thorough'
    cases = []
    for dims, xy0 in (((9, 11), (-4, 17)), ((8, 6), (1000, 2000))):
        for y in range(dims[0]):
            for x in range(dims[1]):
                for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 25) if th else (1, 3, 4, 7, 9, 25):
                    for clip in (False, True):
                        cases.append({'dims': dims, 'xy0': xy0, 'x': x, 'y': y, 'size': n,
                                      'clip': clip, 'off': (0.25, -0.375), 'coord': True,
                                      'wcs': 'rot', 'nb': 2, 'kind': 'F'})
    nan = float('nan')
    offs = [(a, b) for a in (-1.5, -0.5, 0, 0.3, 2.25) for b in (-0.75, 0, 0.5, 1.1)]
    for w in ('std', 'rot', 'curved'):
        for off in offs:
            for coord in (True, False):
                for x, y in ((5, 4), (2, 3), (7, 5)):
                    for kind in ('F', 'D'):
                        for nb in (1, 3) + ((6,) if (x, y) == (2, 3) else ()):
                            cases.append({'dims': (9, 11), 'xy0': (-4, 17), 'x': x, 'y': y,
                                          'size': 5, 'clip': False, 'off': off, 'coord': coord,
                                          'wcs': w, 'nb': nb, 'kind': kind})
    for p in (2, 3):
        for x, y in ((5, 4), (3, 3), (8, 7)):
            for coord in (True, False):
                cases.append({'dims': (9, 11), 'xy0': (-4, 17), 'x': x, 'y': y, 'size': 5,
                              'clip': True, 'off': (0.25, -0.375), 'coord': coord, 'wcs': 'rot',
                              'nb': 2, 'kind': 'F', 'peaks': p})
    for x, y in ((5, 4), (3, 3), (8, 7)):
        for nb in (1, 2, 4):
            cases.append({'dims': (9, 11), 'xy0': (-4, 17), 'x': x, 'y': y, 'size': 5,
                          'clip': True, 'off': None, 'coord': False, 'wcs': 'curved', 'nb': nb,
                          'kind': 'F'})
    inner = [k for k in range(25) if 1 <= k//5 <= 3 and 1 <= k % 5 <= 3]
    var = [{'bad': [k for j, k in enumerate(inner) if bits >> j & 1], 'value': v, 'all': 0,
            'kind': kd}
           for bits in range(512) for v in (0.0, -1.0, nan)
           for kd in ('FD' if th else 'F')]
    var += [{'bad': [], 'value': v, 'all': 1, 'kind': kd} for v in (0.0, -1.0, nan)
            for kd in 'FD']
    psf = [{'psf': p, 'band': b, 'off': o} for p in ('ok', 'none', 'flat', 'even')
           for b in (0, 1, 2, 4) for o in (0.0, 0.25, 0.5, -1.25)]
    jac = [{'wcs': w, 'x': x, 'y': y} for w in ('std', 'rot', 'curved', 'sheared')
           for x in (-3, 0, 0.5, 7, 14.25, 20) for y in (-2, 0, 5.5, 11, 40)]
    return [Space('windows', cases, run), Space('variances', var, run_var),
            Space('psfs', psf, run_psf), Space('coordinates', jac, run_jac)]
