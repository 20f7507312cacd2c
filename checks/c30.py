"""C30: coadds, copies and conversions of exposures."""
import itertools
import ngmix
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from lsst.meas.algorithms import FuncPsf
import lsst.afw.image as afw_image
from metadetect.lsst import util

PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = ('every assignment of variance states to up to three exposures (menus of up to six), every '
        'shape and origin, and '
        'every chain of conversions up to the depth bound, compared with independent per-pixel '
        'references')
ASSUMPTIONS = ['exposures are stand-ins; the coadd image is claimed where all exposures that '
               'contribute have data']

VAR = {
    'flat': lambda v, i: v.fill(0.5 + i),
    'slope': lambda v, i: v.__setitem__(slice(None), 0.5 + 0.25*i + 0.1*np.arange(v.shape[1])**2),
    'part': lambda v, i: (v.fill(0.25 + i), v.__setitem__((1, slice(None)), np.inf),
                          v.__setitem__((2, slice(0, 3)), 0), v.__setitem__((3, 1), np.nan),
                          v.__setitem__((3, 2 + i % 4), -1.0)),
    'zero': lambda v, i: v.fill(0),
    'inf': lambda v, i: v.fill(np.inf),
    'nan': lambda v, i: v.fill(np.nan),
}


def make(case):
    dims, xy0 = tuple(case['dims']), tuple(case['xy0'])
    r, c = np.mgrid[:dims[0], :dims[1]]
    es = []
    for i, s in enumerate(case['states']):
        e = lm.exposure(dims, lm.BANDS[i], xy0, image=(3.0 + i)*((r + 2*c + i) % 5) - 4.0,
                        psf=psf_of(i, case), w=lm.wcs_menu(
                            case['wcs'][i] if 'wcs' in case else 'rot', *xy0),
                        kind=case.get('kind', 'F'))
        VAR[s](e.variance.array, i)
        e.variance.array[:, :] *= case.get('scale', 1)
        e.mask.array[:, :] = ((r + i) % 3 == 0)*(2 << i) | ((r*c) % 7 == 0)*16
        es.append(e)
    return es


def psf_of(i, case):
    x0, y0 = case['xy0']
    return FuncPsf(lambda x, y: lm.gauss(7, 1.0 + 0.1*i + 0.01*(x - x0) + 0.02*(y - y0), 0.02*i),
                   can_clone=case.get('clone', True))


def run_exp(case):
    """coadds of exposures"""
    afw_image._reset_planes()
    es = make(case)
    before = [lm.snap(e) for e in es]
    usable = [np.isfinite(b['variance']) & (b['variance'] > 0) for b in before]
    use = [i for i in range(len(es)) if usable[i].any()]
    got = util.coadd_exposures(es)
    asked = [list(e.getPsf().asked) for e in es]
    out = Out(outcome=tuple(case['states']))
    for b, e in zip(before, es):
        bad = lm.same(b, lm.snap(e))
        out.expect(not bad, 'input', lambda: '%s of the input changed' % bad)
    if not use:
        out.expect(got is None, 'none', 'a coadd without any data')
        return out
    out.expect(got is not None, 'missing', 'no coadd')
    if got is None:
        return out
    ws, num, wpix, every = 0, 0, 0, np.ones(case['dims'], bool)
    psf, m = 0, 0
    bb = es[0].getBBox()
    ctr = (bb.minX + (bb.width - 1)/2, bb.minY + (bb.height - 1)/2)
    for i in use:
        v = before[i]['variance'].astype('f8')
        w = 1/np.median(v[usable[i]])
        ws += w
        num = num + np.where(usable[i], before[i]['image'].astype('f8')*w, 0)
        wpix = wpix + np.where(usable[i], 1/np.where(usable[i], v, 1), 0)
        every &= usable[i]
        at = asked[i][-1] if asked[i] else ctr
        out.expect(asked[i] and abs(at[0] - ctr[0]) <= 0.5 and abs(at[1] - ctr[1]) <= 0.5,
                   'psf-position', lambda: 'psf asked at %s, the centre is %s' % (asked[i], ctr))
        psf = psf + w*lm.psf_image(es[i], at)
    for b in before:
        m = m | b['mask']
    s = lm.snap(got)
    out.expect(isinstance(got, afw_image.ExposureF), 'type', 'type %s' % type(got))
    out.expect(np.allclose(s['image'][every], (num/ws)[every], rtol=1e-5, atol=1e-5), 'image',
               lambda: 'image\n%s\nexpected\n%s' % (s['image'], num/ws))
    out.expect(np.all(np.isfinite(s['image'])), 'finite', 'pixels that are not finite')
    wv = np.where(wpix > 0, 1/np.where(wpix > 0, wpix, 1), np.inf)
    out.expect(np.allclose(s['variance'], wv, rtol=1e-5), 'variance',
               lambda: 'variance\n%s\nexpected\n%s' % (s['variance'], wv))
    out.expect(np.array_equal(s['mask'], m), 'mask', 'mask is not the or of all')
    out.expect(got.getBBox() == bb and got.getWcs() == es[0].getWcs(), 'box', 'box or wcs differ')
    p = lm.psf_image(got, ctr)
    out.expect(p.shape == psf.shape and np.allclose(p, psf/psf.sum(), atol=1e-6), 'psf',
               'psf is not the normalized weighted mean')
    got.image.array[:, :] = 77
    got.mask.array[:, :] = 77
    got.variance.array[:, :] = 77
    out.expect(not any(lm.same(b, lm.snap(e)) for b, e in zip(before, es)), 'shared',
               'the coadd shares pixels with the input')
    return out


WT = {'flat': lambda w, i: w.fill(0.5 + i),
      'slope': lambda w, i: w.__setitem__(slice(None), 0.5 + 0.25*i + 0.1*np.arange(w.shape[1])**2),
      'part': lambda w, i: (w.fill(2.0 + i), w.__setitem__((1, slice(None)), 0)),
      'zero': lambda w, i: w.fill(0)}


def run_obs(case):
    """coadds of multi-band observations"""
    dims = tuple(case['dims'])
    r, c = np.mgrid[:dims[0], :dims[1]]
    mb = ngmix.MultiBandObsList()
    for i, s in enumerate(case['states']):
        w = np.zeros(dims)
        WT[s](w, i)
        jac = ngmix.Jacobian(row=2.0, col=1.5, dvdrow=0.2, dvdcol=0.01, dudrow=-0.01, dudcol=0.2)
        psf = ngmix.Observation((1 + i)*lm.gauss(5, 1.0 + 0.2*i), weight=np.ones((5, 5)),
                                jacobian=ngmix.Jacobian(row=2, col=2, dvdrow=0.2, dvdcol=0.01,
                                                        dudrow=-0.01, dudcol=0.2))
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation((3.0 + i)*((r + 2*c + i) % 5), weight=w, jacobian=jac, psf=psf,
                                    ignore_zero_weight=False, meta={'b%d' % i: i, 'same': i}))
        mb.append(ol)
    keep = [(o[0].image.copy(), o[0].weight.copy(), o[0].psf.image.copy()) for o in mb]
    use = [i for i, k in enumerate(keep) if np.any(k[1] > 0)]
    got = util.coadd_mbobs(mb)
    out = Out(outcome=tuple(case['states']))
    wts = {i: np.median(keep[i][1][keep[i][1] > 0]) for i in use}
    ws = sum(wts.values())
    im = sum(wts[i]*keep[i][0] for i in use)/ws
    ps = sum(wts[i]*keep[i][2] for i in use)
    out.expect(np.allclose(got.image, im, rtol=1e-5, atol=1e-6), 'image',
               lambda: 'image\n%s\nexpected\n%s' % (got.image, im))
    out.expect(np.allclose(got.weight, sum(k[1] for k in keep), rtol=1e-5), 'weight', 'weight')
    out.expect(np.allclose(got.psf.image, ps/ps.sum(), rtol=1e-5, atol=1e-9), 'psf', 'psf')
    out.expect(np.all(got.psf.weight > 0), 'psf-weight', 'psf weight')
    for a, b in ((got.jacobian, mb[0][0].jacobian), (got.psf.jacobian, mb[0][0].psf.jacobian)):
        out.expect(a.get_cen() == b.get_cen() and (a.dudcol, a.dudrow, a.dvdcol, a.dvdrow) == (
            b.dudcol, b.dudrow, b.dvdcol, b.dvdrow), 'jacobian', 'jacobian differs')
    out.expect(all(got.meta.get('b%d' % i) == i for i in range(len(keep))), 'meta', 'meta data')
    out.expect(all(np.array_equal(k[0], o[0].image) and np.array_equal(k[1], o[0].weight)
                   and np.array_equal(k[2], o[0].psf.image) for k, o in zip(keep, mb)),
               'input', 'the input was changed')
    return out


def run_conv(case):
    """chains of conversions between exposures and observations"""
    afw_image._reset_planes()
    e = make(dict(case, states=[case['state']]))[0]
    before = lm.snap(e)
    cur, obs = e, None
    v = before['variance'].astype('f8')
    good = v > 0
    with np.errstate(all='ignore'):
        wt = np.where(good, 1/np.where(good, v, 1), 0)
    var = np.where(wt > 0, 1/np.where(wt > 0, wt, 1), np.inf)
    c = lm.int_center(e)
    J = lm.jac_at(e.getWcs(), *c)
    out = Out(outcome=(case['state'], tuple(case['masks'])), steps=2*len(case['masks']))
    for k, (mname, how) in enumerate(case['masks']):
        obs = util.exp2obs(cur, copy_mask_to=mname, store_exp=bool(k % 2))
        out.expect(np.array_equal(obs.image, before['image']), 'obs-image', 'image differs')
        out.expect(np.allclose(obs.weight, wt, rtol=1e-6, atol=0), 'obs-weight',
                   lambda: 'weight\n%s\nexpected\n%s' % (obs.weight, wt))
        other = 'bmask' if mname == 'ormask' else 'ormask'
        out.expect(np.array_equal(getattr(obs, mname), before['mask']), 'obs-mask', 'mask differs')
        out.expect(not np.any(getattr(obs, other)), 'obs-other-mask', '%s is set' % other)
        out.expect(np.allclose(lm.jac_of(obs), J, atol=1e-7) and np.allclose(
            lm.jac_cen(obs), (c[0] - case['xy0'][0], c[1] - case['xy0'][1])), 'obs-jacobian',
            lambda: 'jacobian %s %s' % (lm.jac_of(obs), lm.jac_cen(obs)))
        if k == 0:
            lm.check_psf(out, 'obs-', obs.psf, e, c, J)
        out.expect((obs.meta.get('exposure') is cur) == bool(k % 2), 'obs-meta', 'stored exposure')
        out.expect(not lm.same(before, lm.snap(e)), 'input', 'the exposure changed')
        if how == 'new':
            nxt = None
        elif how == 'into':
            nxt = afw_image.ExposureF(e, deep=True)
            nxt.image.array[:, :] = -5
            nxt.mask.array[:, :] = 64
            nxt.variance.array[:, :] = -5
            nxt.setPsf(lm.const_psf(lm.gauss(3, 1.0)))
        oldpsf = None if nxt is None else nxt.getPsf()
        # the mask that is not asked for does not leak
        setattr(obs, other, 1 + np.arange(before['mask'].size, dtype='i4').reshape(
            before['mask'].shape))
        got = util.obs2exp(obs, exp=nxt, copy_mask_from=mname, copy_psf=case['psf'])
        out.expect(nxt is None or got is nxt, 'same', 'another exposure is returned')
        out.expect(np.array_equal(got.image.array, before['image'].astype('f4')), 'exp-image',
                   'image differs')
        out.expect(np.allclose(got.variance.array, var, rtol=1e-6), 'exp-variance',
                   lambda: 'variance\n%s\nexpected\n%s' % (got.variance.array, var))
        out.expect(np.array_equal(got.mask.array, before['mask']), 'exp-mask', 'mask differs')
        if case['psf']:
            p, want = lm.psf_image(got, c), obs.psf.image
            out.expect(p.shape == want.shape and np.allclose(p, want/want.sum(), atol=1e-7),
                       'exp-psf', 'psf differs')
        elif nxt is not None:
            out.expect(got.getPsf() is oldpsf, 'exp-psf', 'psf was replaced')
        if nxt is not None:
            out.expect(got.getWcs() == e.getWcs() and got.getBBox() == e.getBBox(), 'exp-wcs',
                       'coordinates were changed')
            cur = got
        if not case['psf'] or nxt is None:
            break
    return out


def run_mask_name(case):
    e = make({'dims': (5, 5), 'xy0': (0, 0), 'states': ['flat']})[0]
    out = Out(outcome=case['name'])
    obs = util.exp2obs(e)
    # what is done unless something is asked for
    back = util.obs2exp(obs)
    out.expect(np.array_equal(obs.ormask, e.mask.array) and not np.any(obs.bmask),
               'default-mask', 'the mask is copied to the wrong mask by default')
    out.expect(not np.any(back.mask.array), 'default-from', 'the ormask was copied by default')
    out.expect('exposure' not in obs.meta, 'default-store', 'the exposure was kept by default')
    out.expect(back.getPsf() is None, 'default-psf', 'the psf was copied by default')
    for f in (lambda: util.exp2obs(e, copy_mask_to=case['name']),
              lambda: util.obs2exp(obs, copy_mask_from=case['name'])):
        try:
            f()
        except Exception:
            continue
        out.bad('accepted', 'mask %s accepted' % case['name'])
    return out


def run_copy(case):
    """multi-band exposures from single ones, and copies"""
    afw_image._reset_planes()
    es = make(case)
    before = [lm.snap(e) for e in es]
    mb = util.get_mbexp(es)
    out = Out(outcome=tuple(case['states']))
    bands = [lm.BANDS[i] for i in range(len(es))]
    ctr = (case['xy0'][0] + 1, case['xy0'][1] + 2)

    def check(tag, m, zero=False):
        out.expect(list(m.bands) == bands, tag + 'bands', 'bands %s' % (m.bands,))
        for e, b, s in zip(es, before, m.singles):
            x = lm.snap(s)
            out.expect(np.array_equal(x['image'], b['image']*(0 if zero else 1)), tag + 'image',
                       'image differs')
            bad = lm.same(b, x, skip=('image', 'psf', 'type'))
            out.expect(not bad, tag + 'planes', '%s differ' % bad)
            out.expect(np.allclose(lm.psf_image(s, ctr), lm.psf_image(e, ctr)), tag + 'psf',
                       'psf differs')
            out.expect(s.getWcs() is not None and s.getWcs() == e.getWcs(), tag + 'wcs', 'wcs')
    check('mbexp-', mb)
    cp = util.copy_mbexp(mb, **({} if not case['clear'] else {'clear': True}))
    check('copy-', cp, bool(case['clear']))
    check('original-', mb)
    for s in cp.singles:
        s.image.array[:, :] = 33
        s.mask.array[:, :] = 33
        s.variance.array[:, :] = 33
        s.setPsf(lm.const_psf(lm.gauss(3, 0.7)))
    check('after-', mb)
    return out


def run_extract(case):
    """coadd data of several bands"""
    afw_image._reset_planes()
    data, keeps = [], []
    for i, b in enumerate(case['bands']):
        d = {}
        for k, n in enumerate(('coadd_exp', 'coadd_noise_exp', 'coadd_mfrac_exp')):
            e = make({'dims': case['dims'], 'xy0': (3, -4), 'states': ['flat']*6})[i]
            e.image.array[:, :] += 100*k
            e.mask.array[:, :] += k
            e.setFilter(afw_image.FilterLabel(b))
            d[n] = e
        data.append(d)
        keeps.append({n: lm.snap(e) for n, e in d.items()})
    got = util.extract_multiband_coadd_data(data)
    out = Out(outcome=tuple(case['bands']))
    out.expect(sorted(got) == ['mbexp', 'mfrac_mbexp', 'noise_mbexp', 'ormasks'], 'keys',
               'keys %s' % sorted(got))
    for n, k in (('mbexp', 'coadd_exp'), ('noise_mbexp', 'coadd_noise_exp'),
                 ('mfrac_mbexp', 'coadd_mfrac_exp')):
        out.expect(list(got[n].bands) == list(case['bands']), 'bands', 'bands differ')
        for s, kp in zip(got[n].singles, keeps):
            x = lm.snap(s)
            bad = lm.same(kp[k], x, skip=('mask', 'psf', 'type'))
            out.expect(not bad, n, '%s differ' % bad)
            out.expect(not x['mask'].any(), n + '-mask', 'mask is not zero')
    for o, kp in zip(got['ormasks'], keeps):
        out.expect(np.array_equal(o, kp['coadd_exp']['mask']), 'ormask', 'or-mask differs')
    out.expect(len(got['ormasks']) == len(case['bands']), 'ormask', 'number of or-masks')
    return out


def run_trim(case):
    """trimming images to odd squares around the same centre"""
    ny, nx = case['dims']
    im = np.arange(ny*nx, dtype='f8').reshape(ny, nx)
    keep = im.copy()
    out = Out(outcome=(ny, nx))
    got = util.trim_odd_image(im)
    n = min(ny, nx)
    want = im[(ny - n)//2:(ny + n)//2, (nx - n)//2:(nx + n)//2]
    out.expect(got.shape == want.shape and np.array_equal(got, want), 'trim',
               lambda: 'shape %s expected %s' % (got.shape, want.shape))
    out.expect(np.array_equal(im, keep), 'input', 'the input changed')
    return out


def warmup():
    run_exp({'states': ['flat'], 'dims': (5, 7), 'xy0': (0, 0)})


def spaces(tier):
    th = tier == 'thorough'
    ex, ob, cv, cp, xt = [], [], [], [], []
    geo = [((6, 7), (0, 0)), ((7, 7), (100, -20)), ((8, 6), (-3, 55))]
    for n in (1, 2, 3) + ((4,) if th else ()):
        for st in itertools.product(VAR, repeat=n):
            for g in (geo if n < 3 else geo[1:2]):
                for kind in 'FD' if n < 3 else 'F':
                    ex.append({'states': list(st), 'dims': g[0], 'xy0': g[1], 'kind': kind})
    for n in (1, 2, 3, 4):
        for st in itertools.product(WT, repeat=n):
            if any(s != 'zero' for s in st):
                for d in ((5, 6), (6, 4)):
                    ob.append({'states': list(st), 'dims': d})
    for n in (5, 6):
        for k in range(n):
            for a in VAR:
                ex.append({'states': ['flat']*k + [a] + ['slope']*(n-k-1), 'dims': geo[0][0],
                           'xy0': geo[0][1], 'kind': 'F'})
            for a in WT:
                ob.append({'states': ['flat']*k + [a] + ['flat']*(n-k-1), 'dims': (5, 6)})
    steps = [(m, h) for m in ('ormask', 'bmask') for h in ('new', 'into')]
    for d, xy in geo:
        for st in ('flat', 'slope', 'part'):    # ngmix refuses observations without any weight
            for n in (1, 2, 3) if th else (1, 2):
                for ms in itertools.product(steps, repeat=n):
                    for p in (False, True):
                        if n == 1 or (p and all(h == 'into' for _, h in ms[:-1])):
                            for sc in (1, 1e-6, 3e5) if n == 1 else (1,):
                                cv.append({'dims': d, 'xy0': xy, 'state': st, 'masks': list(ms),
                                           'psf': p, 'scale': sc})
    for d, xy in geo:
        for n in (1, 2, 3):
            for st in itertools.product(('flat', 'part', 'zero'), repeat=n):
                for cl in (0, 1):
                    for clone in (True, False):
                        for kind in 'FD':
                            for w in (('rot',)*3, ('std', 'rot', 'curved'))[:n]:
                                cp.append({'dims': d, 'xy0': xy, 'states': list(st), 'clear': cl,
                                           'clone': clone, 'kind': kind, 'wcs': w})
    for n in (1, 2, 3):
        for b in itertools.permutations('griz', n):
            xt.append({'bands': list(b), 'dims': (5, 6)})
    xt += [{'bands': list(b), 'dims': (5, 6)} for b in ('grizyu', 'uyzirg', 'yrgzu')]
    tr = [{'dims': (a, b)} for a in range(1, 14, 2) for b in range(1, 14, 2)]
    return [Space('coadd-exposures', ex, run_exp), Space('coadd-observations', ob, run_obs),
            Space('conversions', cv, run_conv), Space('copies', cp, run_copy),
            Space('extract', xt, run_extract), Space('trim', tr, run_trim),
            Space('mask-names', [{'name': n} for n in ('mask', '', 'BMASK')], run_mask_name)]
