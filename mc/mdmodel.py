"""Independent model of a complete metadetection run on a bundle."""
import copy
import numpy as np
import ngmix
import sxdes
from ngmix import env
from mc import obsmodel as om
from metadetect import procflags as pf
from metadetect import fitting, shearpos
from metadetect.mfrac import measure_mfrac
from metadetect.defaults import BMASK_EDGE

MINIMAL = ['noshear', '1p', '1m', '2p', '2m']
BOX = 8
MEDS = {'box_type': 'iso_radius', 'rad_min': 1, 'rad_fac': 2, 'box_padding': 2,
        'min_box_size': BOX, 'max_box_size': BOX}


def base_image(dims, b):
    r, c = np.mgrid[:dims[0], :dims[1]]
    im = 0.5 + 0.01*r + 0.02*c + 0.1*b
    for k, (y, x) in enumerate([(4, 5), (9, 12), (13, 3)]):
        im = im + (10.0 + b + k)*np.exp(-((r-y)**2 + (c-x)**2)/4.0)
    return im


def make_band(dims, b, state='ok', mf='some', nodet='none', flip=False):
    """state: ok, zero, neg, holes; mf: none, zero, one, some; nodet: none, some, all"""
    r, c = np.mgrid[:dims[0], :dims[1]]
    w = np.full(dims, 4.0 + 2*b)
    if state == 'zero':
        w[:] = 0
    elif state == 'holes':
        w[2:4, 3:6] = 0
        w = w*(1 + 0.01*r)
    elif state == 'one':
        w[:] = 0
        w[4, 5] = 3.0
    bm = (((r + 2*c + b) % 5 == 0)*(1 << (b % 5))).astype('i4')
    if nodet == 'some':
        bm[4:8, 2:9] |= 512
    elif nodet == 'all':
        bm |= 512
    elif nodet == 'allother':
        bm |= 1024
    elif nodet == 'allbut1':
        bm |= 512
        bm[0, 0] &= ~512
    om_ = (((3*r + c + b) % 7 == 0)*(64 << (b % 5))).astype('i4')
    kw = {}
    if mf == 'zero':
        kw['mfrac'] = np.zeros(dims)
    elif mf == 'one':
        kw['mfrac'] = np.ones(dims)
    elif mf == 'some':
        kw['mfrac'] = ((r*3 + c*(2 + b)) % 9)/9.0
    elif mf == 'small':
        kw['mfrac'] = ((r*3 + c*(2 + b)) % 9)*4e-5
    elif mf == 'allbut1':
        kw['mfrac'] = np.ones(dims)
        kw['mfrac'][0, 0] = 0.5
    pr, pc = np.mgrid[:7, :7]
    pim = np.exp(-((pr-3)**2*(1 + 0.2*b) + (pc-3)**2)/(2.0 + b))
    if flip:
        jac = dict(dvdrow=0.2, dvdcol=0.01, dudrow=0.02, dudcol=-0.2)
    else:
        jac = dict(dvdrow=0.2, dvdcol=0.0, dudrow=0.0, dudcol=0.2)
    psf = ngmix.Observation(pim, weight=np.full(pim.shape, 100.0), meta={'band': b},
                            jacobian=ngmix.Jacobian(row=3, col=3, **jac))
    o = ngmix.Observation(
        base_image(dims, b), weight=w, bmask=bm, ormask=om_,
        noise=0.01*((r + c + b) % 3 - 1.0), psf=psf, meta={'band': b},
        jacobian=ngmix.Jacobian(row=(dims[0]-1)/2, col=(dims[1]-1)/2, **jac),
        ignore_zero_weight=bool(np.any(w > 0)), **kw)
    return o


def make_mbobs(dims, bands, flip=False):
    return om.make_mbobs([make_band(dims, i, flip=flip, **b) for i, b in enumerate(bands)])


def snap(mb):
    return [[om.snap(o) for o in ol] for ol in mb]


def same_snap(a, b):
    """everything but bookkeeping (meta) of the observations is unchanged"""
    for la, lb in zip(a, b):
        if len(la) != len(lb):
            return False
        for x, y in zip(la, lb):
            for k in set(x) | set(y):
                if k == 'meta':
                    continue
                if not np.array_equal(x.get(k), y.get(k)):
                    return False
    return len(a) == len(b)


def wmfrac(mb, use):
    num = np.zeros(mb[0][0].image.shape)
    den = 0.0
    for b in use:
        o = mb[b][0]
        w = np.array(o.weight)
        wt = np.median(w[w > 0]) if np.any(w > 0) else 0.0
        if o.has_mfrac():
            num = num + wt*np.array(o.mfrac)
        den += wt
    if den > 0:
        return num/den
    return np.ones(num.shape)


def detim(mb, det):
    num, den = 0.0, 0.0
    for b in det:
        w = np.array(mb[b][0].weight)
        wt = np.median(w[w > 0])
        num = num + wt*np.array(mb[b][0].image)
        den += wt
    return num/den


ROWS = [
    dict(x=5.2, y=4.3, iso_radius=1.0),
    dict(x=12.4, y=8.8, iso_radius=2.0),
    dict(x=0.3, y=17.1, iso_radius=1.0),
    dict(x=2.9, y=13.2, iso_radius=3.0),
    dict(x=7.1, y=5.6, iso_radius=1.0),
]


def det_answer(idx, dims):
    objs = sxdes.make_objs([ROWS[i] for i in idx])
    seg = np.zeros(dims, dtype='i4')
    for k, i in enumerate(idx):
        y, x = ROWS[i]['y'], ROWS[i]['x']
        seg[min(dims[0]-1, int(y+0.5)), min(dims[1]-1, int(x+0.5))] = k+1
    return objs, seg


class Env(object):
    """answers detections per (metacal type, detection bands) and psf/metacal outcomes"""
    def __init__(self, mb, cfg, plan, psf_bad=(), mcal=None, alts=()):
        self.mb = mb
        self.cfg = cfg
        self.plan = plan           # function(type, det bands tuple) -> row indices
        self.psf_bad = psf_bad
        self.mcal = mcal
        self.dets = []
        self.unknown = 0
        self.sources = [mb] + list(alts)
        self.ncal = 0
        self.odicts = {}
        mcfg = {k: v for k, v in cfg['metacal'].items()}
        with env.use(None):
            if all(np.any(o.weight > 0) for ol in mb for o in ol):
                self.odict = ngmix.metacal.get_all_metacal(mb, **mcfg)
            else:
                self.odict = None
        self.detbands = None

    def expect_dets(self, combos):
        self.cands = []
        for det in {tuple(d) for d in combos}:
            for t, mb in self.odict.items():
                self.cands.append((t, det, detim(mb, det)))

    def __call__(self, kind, info):
        if kind == 'metacal':
            self.ncal += 1
            if self.mcal == 'fail':
                return ngmix.gexceptions.BootPSFFailure('injected')
            return None
        if kind == 'admom':
            o = info['obs']
            if not o.has_psf() and o.meta.get('band') in self.psf_bad:
                return {'flags': 8, 'T_flags': 8, 'flagstr': 'x', 'e': np.array([np.nan]*2),
                        'T': np.nan, 's2n': np.nan}
            return None
        if kind == 'detect':
            for t, det, im in self.cands:
                if np.allclose(im, info['image'], rtol=1e-12, atol=1e-12):
                    self.dets.append((t, det))
                    return det_answer(self.plan(t, det), info['image'].shape)
            self.unknown += 1
            return det_answer([], info['image'].shape)


def stamp_of(obs, seg, num, y, x, box, uber):
    """the object's observation, pixel by pixel, or None without any weight"""
    r0 = max(0, int(np.float32(y)) - box//2 + 1)
    c0 = max(0, int(np.float32(x)) - box//2 + 1)
    out = {}
    for t, pad in (('image', 0), ('weight', 0), ('bmask', BMASK_EDGE), ('noise', 0),
                   ('seg', 0)):
        full = seg if t == 'seg' else np.array(getattr(obs, t))
        st = np.full((box, box), pad, dtype=full.dtype)
        for i in range(box):
            for j in range(box):
                if r0 + i < full.shape[0] and c0 + j < full.shape[1]:
                    st[i, j] = full[r0+i, c0+j]
        out[t] = st
    sg = out.pop('seg')
    if uber:
        pts = np.argwhere(sg != 0)
        if len(pts) and np.any(sg[sg != 0] != num):
            for i in range(box):
                for j in range(box):
                    k = pts[np.argmin(((pts - [i, j])**2).sum(axis=1))]
                    if sg[k[0], k[1]] != num:
                        out['weight'][i, j] = 0
    if not np.any(out['weight'] > 0):
        return None
    j = obs.jacobian
    jac = ngmix.Jacobian(row=np.float32(y) - r0, col=np.float32(x) - c0, dudrow=j.dudrow,
                         dudcol=j.dudcol, dvdrow=j.dvdrow, dvdcol=j.dvdcol)
    pim = np.array(obs.psf.image)
    pc = (np.array(pim.shape) - 1)/2
    pjac = ngmix.Jacobian(row=pc[0], col=pc[1], dudrow=j.dudrow, dudcol=j.dudcol,
                          dvdrow=j.dvdrow, dvdcol=j.dvdcol)
    noise = pim.max()/1000.0
    psf = ngmix.Observation(pim, weight=pim*0 + 1.0/noise**2, jacobian=pjac)
    return ngmix.Observation(out['image'], weight=out['weight'], bmask=out['bmask'],
                             noise=out['noise'], jacobian=jac, psf=psf,
                             meta={'band': obs.meta['band']})


def window(mask, y, x, half):
    ny, nx = mask.shape
    r = min(max(int(np.rint(np.float32(y))), 0), ny-1)
    c = min(max(int(np.rint(np.float32(x))), 0), nx-1)
    if half <= 1:
        return int(mask[r, c])
    v = 0
    for i in range(ny):
        for j in range(nx):
            if abs(i - r) <= half and abs(j - c) <= half:
                v |= int(mask[i, j])
    return v


def fitters_of(cfg):
    lst = cfg.get('fitters') or [cfg]
    res = []
    for f in lst:
        m = f.get('model', 'wmom')
        fwhm = f.get('weight', {}).get('fwhm', 1.2)
        reg = f.get('weight', {}).get('fwhm_reg', 0)
        kw = {}
        if 'fwhm_smooth' in f.get('weight', {}):
            kw['fwhm_smooth'] = f['weight']['fwhm_smooth']
        if m == 'wmom':
            o = ngmix.gaussmom.GaussMom(fwhm=fwhm)
        elif m == 'ksigma':
            o = ngmix.prepsfmom.KSigmaMom(fwhm=fwhm, **kw)
        elif m == 'pgauss':
            o = ngmix.prepsfmom.PGaussMom(fwhm=fwhm, **kw)
        else:
            o = None
        if o is not None and 'fwhm_reg' in f.get('weight', {}):
            o.kind += '_reg%0.2f' % reg
        res.append((m, o, fwhm, reg, f.get('symmetrize', True), f.get('coadd', False)))
    return res


def expected(mb, cfg, combos, e, meta_from=None):
    """{type: list of (row index, {column: value})} or None"""
    nb = len(mb)
    nodet = cfg.get('nodet_flags', 0)
    dims = mb[0][0].image.shape
    if not np.any(wmfrac(mb, range(nb)) < 1):
        return None
    for ol in mb:
        if not np.any(ol[0].weight != 0):
            return None
        if np.all((np.array(ol[0].bmask) & nodet) != 0):
            return None
    if e.mcal == 'fail':
        return None
    rng = np.random.RandomState(5)
    fits = fitters_of(cfg)
    res = {}
    uber = cfg['meds'].get('weight_type', 'weight') == 'uberseg'
    step = cfg['metacal'].get('step', 0.01)
    bad = cfg.get('bmask_flags', 0)
    mreg = cfg.get('mask_region', 1)
    oreg = cfg.get('ormask_region', 1)
    if oreg <= 1:
        oreg = mreg
    for t, smb in e.odict.items():
        rows = []
        for shear, det in combos:
            idx = e.plan(t, tuple(det))
            objs, seg = det_answer(idx, dims)
            mf = wmfrac(mb, shear)
            bmask = np.zeros(dims, dtype='i4')
            ormask = np.zeros(dims, dtype='i4')
            ps = []
            for b in shear:
                bmask |= np.array(mb[b][0].bmask)
                ormask |= np.array(mb[b][0].ormask)
                with env.use(None):
                    r = ngmix.admom.AdmomFitter().go(mb[b][0].psf, guess='x')
                ps.append((r['e'], r['T'], mb[b][0].weight.max()))
            if any(b < nb for b in e.psf_bad):
                pflags, pe, pT = pf.PSF_FAILURE, np.array([np.nan]*2), np.nan
            else:
                ws = sum(p[2] for p in ps)
                pflags = 0
                pe = sum(p[0]*p[2] for p in ps)/ws
                pT = sum(p[1]*p[2] for p in ps)/ws
            for k in range(len(idx)):
                x, y = objs['x'][k], objs['y'][k]
                stamps = ngmix.MultiBandObsList()
                for ol in smb:
                    o = stamp_of(ol[0], seg, k+1, y, x, BOX, uber)
                    nl = ngmix.ObsList()
                    if o is not None:
                        nl.append(o)
                    stamps.append(nl)
                row = {}
                for m, fo, fwhm, reg, sym, co in fits:
                    if fo is not None:
                        d = fitting.fit_mbobs_wavg(mbobs=stamps, fitter=fo, bmask_flags=bad,
                                                   shear_bands=list(shear), fwhm_reg=reg,
                                                   symmetrize=sym)
                    else:
                        d = fitting.fit_mbobs_list_joint(
                            mbobs_list=[stamps], fitter_name=m, bmask_flags=bad, rng=rng,
                            shear_bands=list(shear), symmetrize=sym, coadd=co)
                    for n in d.dtype.names:
                        row[n] = d[n][0]
                row['shear_bands'] = ''.join(str(s) for s in sorted(shear))
                row['det_bands'] = ''.join(str(s) for s in sorted(det))
                row['sx_row'], row['sx_col'] = np.float32(y), np.float32(x)
                r0, c0 = shearpos.unshear_positions(
                    np.array([row['sx_row']]), np.array([row['sx_col']]), t,
                    mb[0][0].jacobian, dims, step=step)
                row['sx_row_noshear'] = np.float32(r0[0])
                row['sx_col_noshear'] = np.float32(c0[0])
                for s in ('', '_noshear'):
                    yy, xx = row['sx_row' + s], row['sx_col' + s]
                    row['bmask' + s] = window(bmask, yy, xx, mreg)
                    row['ormask' + s] = window(ormask, yy, xx, oreg)
                    row['mfrac' + s] = 0.0
                    if np.any(mf > 0):
                        row['mfrac' + s] = measure_mfrac(
                            mfrac=mf, x=np.array([xx]), y=np.array([yy]),
                            box_sizes=np.array([BOX]), obs=mb[0][0],
                            fwhm=cfg.get('mfrac_fwhm', fits[0][2]))[0]
                row['mfrac_img'] = mf.mean()
                row['psfrec_flags'] = pflags
                row['psfrec_g'] = pe
                row['psfrec_T'] = pT
                rows.append(row)
        res[t] = rows
    return res


def compare(out, got, exp, types, tag=''):
    if exp is None:
        return out.expect(got is None, tag + 'should-be-none',
                          lambda: 'expected no result, got %s' % sorted(got))
    if not out.expect(got is not None, tag + 'none', 'result is None'):
        return False
    out.expect(set(got) == set(types), tag + 'keys', 'keys %s expected %s'
               % (sorted(got), sorted(types)))
    for t in types:
        rows = exp.get(t, [])
        d = got.get(t)
        if not rows:
            out.expect(d is None, tag + 'empty', '%s: expected None' % t)
            continue
        if not out.expect(d is not None and len(d) == len(rows), tag + 'nrows',
                          '%s: %s rows, expected %d' % (t, None if d is None else len(d),
                                                        len(rows))):
            continue
        names = set(d.dtype.names)
        out.expect(names == set(rows[0]), tag + 'columns', 'columns differ: %s'
                   % sorted(names ^ set(rows[0])))
        for n in sorted(names & set(rows[0])):
            for k, row in enumerate(rows):
                g, w = d[n][k], row[n]
                if isinstance(w, str) or d[n].dtype.kind == 'U':
                    ok = str(g) == str(w)
                elif 'flags' in n or n.startswith(('ormask', 'bmask')):
                    ok = np.array_equal(g, w)
                else:
                    ok = np.allclose(np.asarray(g, dtype='f8'), np.asarray(w, dtype='f8'),
                                     rtol=2e-6, atol=1e-9, equal_nan=True)
                if not out.expect(ok, tag + 'column:' + n, '%s row %d %s is %s expected %s'
                                  % (t, k, n, g, w)):
                    break
    return True


def same(a, b):
    """two results are identical"""
    if a is None or b is None:
        return a is None and b is None
    if set(a) != set(b):
        return False
    for k in a:
        if (a[k] is None) != (b[k] is None):
            return False
        if a[k] is None:
            continue
        if a[k].dtype != b[k].dtype or a[k].shape != b[k].shape:
            return False
        for n in a[k].dtype.names:
            if a[k][n].dtype.kind == 'f':
                if not np.array_equal(a[k][n], b[k][n], equal_nan=True):
                    return False
            elif not np.array_equal(a[k][n], b[k][n]):
                return False
    return True


def deep(x):
    return copy.deepcopy(x)
