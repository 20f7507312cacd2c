"""exposures, catalogs and snapshots for the checks of the LSST interface"""
import numpy as np
import lsst.geom as geom
import lsst.afw.image as afw_image
import lsst.afw.table as afw_table
from lsst.afw.detection import Footprint
from lsst.afw.geom import SkyWcs, SpanSet
from lsst.meas.algorithms import FuncPsf, KernelPsf
from lsst.afw.math import FixedKernel

BANDS = ('g', 'r', 'i', 'z', 'y', 'u')


def wcs(x0=0, y0=0, scale=0.2, rot=0, q=0, crval=(200.0, 0.1)):
    """rot: 0 the usual orientation (ra falls with x), 1 rotated, 2 sheared"""
    s = scale/3600
    cd = {0: [[-s, 0], [0, s]],
          1: [[-0.6*s, 0.8*s], [0.8*s, 0.6*s]],
          2: [[-1.1*s, 0.2*s], [0.1*s, 0.9*s]]}[rot]
    return SkyWcs((x0 + 3.0, y0 + 2.0), crval, cd, q)


def gauss(n, sig, e1=0.0, e2=0.0, cen=None):
    c = (n - 1)/2.0 if cen is None else cen
    y, x = np.mgrid[:n, :n] - c
    ixx, iyy, ixy = sig**2*(1 + e1), sig**2*(1 - e1), sig**2*e2
    det = ixx*iyy - ixy**2
    im = np.exp(-0.5*(iyy*x**2 - 2*ixy*x*y + ixx*y**2)/det)
    return im/im.sum()


def const_psf(im):
    return KernelPsf(FixedKernel(afw_image.ImageD(np.array(im, dtype='f8'))))


def pos_psf(n=5, sig=1.0, slope=0.01, e1=0.0, e2=0.0):
    """a psf that depends on the position"""
    return FuncPsf(lambda x, y: gauss(n, sig*(1 + slope*x + 2*slope*y), e1, e2))


def exposure(dims, band='i', xy0=(0, 0), image=None, var=None, mask=None, psf=None,
             w=None, kind='F'):
    ny, nx = dims
    bb = geom.Box2I(geom.Point2I(*xy0), geom.Extent2I(nx, ny))
    e = (afw_image.ExposureF if kind == 'F' else afw_image.ExposureD)(bb)
    r, c = np.mgrid[:ny, :nx]
    ib = BANDS.index(band) if band in BANDS else 5
    e.image.array[:, :] = (10.0 + ib + 0.5*r - 0.25*c) if image is None else image
    e.variance.array[:, :] = (0.25 + 0.25*ib) if var is None else var
    e.mask.array[:, :] = ((r + 2*c + ib) % 3 == 0)*2 if mask is None else mask
    e.setPsf(const_psf(gauss(5, 1.0)) if psf is None else psf)
    e.setWcs(wcs(*xy0) if w is None else w)
    e.setFilter(afw_image.FilterLabel(band))
    return e


def mbexp_of(exps):
    """made without the code under test"""
    bands = [e.getFilter().bandLabel for e in exps]
    mb = afw_image.MultibandExposure.fromExposures(bands, exps)
    for e, s in zip(exps, mb.singles):
        s.setFilter(e.getFilter())
        s.setWcs(e.getWcs())
    return mb


def snap(exp):
    return {'image': exp.image.array.copy(), 'variance': exp.variance.array.copy(),
            'mask': exp.mask.array.copy(), 'psf': id(exp.getPsf()),
            'wcs': id(exp.getWcs()), 'filter': exp.getFilter().bandLabel
            if exp.getFilter() is not None else None,
            'box': repr(exp.getBBox()), 'type': type(exp).__name__}


def snaps(mb):
    return [snap(e) for e in mb.singles]


def same(a, b, skip=()):
    """names of the entries in which two snapshots differ"""
    bad = []
    for k in a:
        if k in skip:
            continue
        if isinstance(a[k], np.ndarray):
            if not (a[k].shape == b[k].shape and np.array_equal(
                    a[k], b[k], equal_nan=a[k].dtype.kind == 'f')):
                bad.append(k)
        elif a[k] != b[k]:
            bad.append(k)
    return bad


def block(x, y, hw=1, hh=None, bbox=None):
    """pixels of a rectangle around x, y, cut to the box"""
    hh = hw if hh is None else hh
    p = [(i, j) for j in range(y - hh, y + hh + 1) for i in range(x - hw, x + hw + 1)]
    if bbox is not None:
        p = [q for q in p if bbox.contains(geom.Point2I(*q))]
    return p


def catalog(specs, cen=True, schema=None):
    """specs: dicts with id, parent, n (number of children), pix, peak, cen"""
    if schema is None:
        schema = afw_table.SourceTable.makeMinimalSchema()
        schema.addField('deblend_nChild', 0)
    recs = []
    for s in specs:
        r = afw_table.SourceRecord(schema, s['id'], s.get('parent', 0))
        r['deblend_nChild'] = s.get('n', 0)
        fp = Footprint(SpanSet(s['pix']))
        for p in s.get('peaks', [s.get('peak')]):
            fp.addPeak(p[0], p[1], 1.0)
        r.setFootprint(fp)
        c = s.get('cen', s.get('peak') or s['peaks'][0])
        r._cen = geom.Point2D(*map(float, c))
        if 'wcs' in s:
            r._coord = s['wcs'].pixelToSky(r._cen)
        recs.append(r)
    return afw_table.SourceCatalog(recs)


def wcs_menu(name, x0=0, y0=0):
    """coordinate systems that keep angles: usual, rotated, rotated and curved"""
    if name == 'std':
        return wcs(x0, y0)
    if name == 'rot':
        return wcs(x0, y0, rot=1)
    if name == 'curved':
        return wcs(x0, y0, rot=1, q=2e-3 - 1e-3j)
    if name == 'sheared':
        return wcs(x0, y0, rot=2)
    raise ValueError(name)


def jac_at(w, x, y):
    """(dudx, dudy, dvdx, dvdy) in arcsec per pixel, u to the west, v to the north, from
    differences of the sky positions around the pixel"""
    def sky(a, b):
        p = w.pixelToSky(geom.Point2D(a, b))
        return np.array([p.getRa().asDegrees(), p.getDec().asDegrees()])*3600
    gx = sky(x + 0.5, y) - sky(x - 0.5, y)
    gy = sky(x, y + 0.5) - sky(x, y - 0.5)
    return np.array([-gx[0], -gy[0], gx[1], gy[1]])


def jac_of(obs):
    j = obs.jacobian
    return np.array([j.dudcol, j.dudrow, j.dvdcol, j.dvdrow])


def jac_cen(obs):
    """x, y"""
    return tuple(reversed(obs.jacobian.get_cen()))


def check_stamp(out, key, obs, exp, box, cen, where, psf_at):
    """obs must show exactly box = (x0, y0, nx, ny) of exp, with the local coordinate
    system of the position where, and the psf of the position psf_at"""
    x0, y0, nx, ny = box
    ex0, ey0 = exp.getXY0()
    sl = (slice(y0 - ey0, y0 - ey0 + ny), slice(x0 - ex0, x0 - ex0 + nx))
    im, var, mask = exp.image.array[sl], exp.variance.array[sl], exp.mask.array[sl]
    out.expect(obs.image.shape == (ny, nx) and np.array_equal(obs.image, im.astype('f8')),
               key + 'image', lambda: 'image differs: %s %s' % (obs.image.shape, im.shape))
    good = var[var > 0].astype('f8')
    out.expect(np.allclose(obs.weight, 1/np.median(good), rtol=1e-5) and
               obs.weight.shape == (ny, nx), key + 'weight',
               lambda: 'weight %s expected %s' % (np.unique(obs.weight), 1/np.median(good)))
    out.expect(obs.has_bmask() and np.array_equal(obs.bmask, mask), key + 'bmask',
               'bit mask differs')
    out.expect(np.allclose(jac_cen(obs), (where[0] - x0, where[1] - y0), atol=1e-6, rtol=0),
               key + 'jacobian-centre', lambda: 'jacobian centre %s expected %s' % (
                   jac_cen(obs), (where[0] - x0, where[1] - y0)))
    J = jac_at(exp.getWcs(), *where)
    out.expect(np.allclose(jac_of(obs), J, atol=1e-6, rtol=1e-6), key + 'jacobian',
               lambda: 'jacobian %s expected %s' % (jac_of(obs), J))
    check_psf(out, key, obs.psf, exp, psf_at, J)


def psf_image(exp, at):
    """the psf image of an exposure at a position, without leaving a trace"""
    p = exp.getPsf()
    n = len(getattr(p, 'asked', ()))
    im = p.computeKernelImage(geom.Point2D(*at)).array.astype('f8')
    if hasattr(p, 'asked'):
        del p.asked[n:]
    return im


def check_psf(out, key, pobs, exp, at, J):
    im = psf_image(exp, at)
    out.expect(pobs.image.shape == im.shape and np.allclose(pobs.image, im, rtol=0,
                                                            atol=1e-6*im.max()),
               key + 'psf', lambda: 'psf is not that of %s' % (at,))
    out.expect(np.allclose(jac_cen(pobs), ((im.shape[1] - 1)/2, (im.shape[0] - 1)/2)),
               key + 'psf-centre', lambda: 'psf centre %s' % (jac_cen(pobs),))
    out.expect(np.allclose(jac_of(pobs), J, atol=1e-6, rtol=1e-6), key + 'psf-jacobian',
               lambda: 'psf jacobian %s expected %s' % (jac_of(pobs), J))
    out.expect(np.all(pobs.weight > 0) and np.all(np.isfinite(pobs.weight)),
               key + 'psf-weight', 'bad psf weight')


def ref_obs(exp, image, box, where, psf_at):
    """an observation of box = (x0, y0, nx, ny) of an exposure, with other image pixels"""
    import ngmix
    x0, y0, nx, ny = box
    ex0, ey0 = exp.getXY0()
    sl = (slice(y0 - ey0, y0 - ey0 + ny), slice(x0 - ex0, x0 - ex0 + nx))
    var = exp.variance.array[sl].astype('f8')
    J = jac_at(exp.getWcs(), *where)
    im = psf_image(exp, psf_at).astype('f4')
    jac = ngmix.Jacobian(x=where[0] - x0, y=where[1] - y0, dudx=J[0], dudy=J[1],
                         dvdx=J[2], dvdy=J[3])
    pjac = ngmix.Jacobian(x=(im.shape[1] - 1)/2, y=(im.shape[0] - 1)/2, dudx=J[0], dudy=J[1],
                          dvdx=J[2], dvdy=J[3])
    good = exp.variance.array[sl][exp.variance.array[sl] > 0]
    psf = ngmix.Observation(im, weight=im*0 + 1/(im.max()*0.0001)**2, jacobian=pjac)
    return ngmix.Observation(
        image[sl], weight=np.zeros(var.shape) + 1/np.median(good), jacobian=jac,
        bmask=exp.mask.array[sl].copy(), psf=psf)


def ref_rows(mb, images, objs, size, shear_idx, fwhm):
    """the expected rows for objects (dicts with peak, cen or None, bmask, images): list of
    dicts of columns"""
    import ngmix
    import ngmix.prepsfmom
    from metadetect import fitting, procflags
    bb = mb.getBBox()
    nb = len(mb.bands)
    w = mb.singles[0].getWcs()
    rows = []
    for o in objs:
        px, py = o['peak']
        cen = o.get('cen')
        at = (px, py) if cen is None else cen
        h = size//2
        r = {'stamp_size': size, 'row0': bb.beginY, 'col0': bb.beginX,
             'row': at[1], 'col': at[0],
             'row_diff': np.nan if cen is None else cen[1] - py,
             'col_diff': np.nan if cen is None else cen[0] - px, 'bmask': o['bmask']}
        s = w.pixelToSky(geom.Point2D(*at))
        r['ra'], r['dec'] = s.getRa().asDegrees(), s.getDec().asDegrees()
        flags = 0
        if (px - h < bb.minX or px + h > bb.maxX or py - h < bb.minY or py + h > bb.maxY):
            flags = procflags.EDGE_HIT
        else:
            sl = (slice(py - h - bb.minY, py + h + 1 - bb.minY),
                  slice(px - h - bb.minX, px + h + 1 - bb.minX))
            if any(not np.any(e.variance.array[sl] > 0) for e in mb.singles):
                flags = procflags.ZERO_WEIGHTS
        r['stamp_flags'] = flags
        if flags:
            fresh = (fitting.get_wavg_output_struct(nb, 'gauss', shear_bands=shear_idx),
                     fitting.get_wavg_output_struct(nb, 'pgauss'))
            fits = fresh
        else:
            ims = o.get('images', images)
            mbobs = ngmix.MultiBandObsList()
            for e, im in zip(mb.singles, ims):
                ol = ngmix.ObsList()
                ol.append(ref_obs(e, im, (px - h, py - h, 2*h + 1, 2*h + 1), at, at))
                mbobs.append(ol)
            rng = np.random.RandomState(5)
            runner = ngmix.runners.PSFRunner(
                fitter=ngmix.admom.AdmomFitter(rng=rng), ntry=4,
                guesser=ngmix.guessers.GMixPSFGuesser(rng=rng, ngauss=1, guess_from_moms=True))
            fits = (fitting.fit_mbobs_gauss(mbobs=mbobs, bmask_flags=0, psf_runner=runner, rng=rng,
                                            shear_bands=shear_idx),
                    fitting.fit_mbobs_wavg(mbobs=mbobs, bmask_flags=0,
                                           fitter=ngmix.prepsfmom.PGaussMom(fwhm=fwhm)))
        for n in fits[0].dtype.names:
            r[n] = fits[0][n][0]
        for n in fits[1].dtype.names:
            if 'psf' not in n and n not in ('pgauss_g', 'pgauss_g_cov', 'shear_bands'):
                r[n] = fits[1][n][0]
        rows.append(r)
    return rows


def compare_rows(out, key, res, rows, rtol=2e-4, extra=()):
    if not rows:
        out.expect(res is None, key + 'none', 'rows without objects')
        return
    if res is None or len(res) != len(rows):
        out.expect(False, key + 'rows', '%s rows, expected %d' % (
            None if res is None else len(res), len(rows)))
        return
    out.checked += 1
    for i, r in enumerate(rows):
        for n, v in r.items():
            if n not in res.dtype.names:
                out.expect(False, key + 'column', 'column %s is missing' % n)
                continue
            g = res[n][i]
            if isinstance(v, str):
                ok = g == v
            else:
                g, v = np.asarray(g), np.asarray(v)
                tol = 1e-5 if n in ('row', 'col', 'row_diff', 'col_diff') else 1e-8
                if n in ('ra', 'dec'):
                    ok = np.allclose(g, v, atol=1e-9, rtol=0, equal_nan=True)
                elif g.dtype.kind in 'iub':
                    ok = np.array_equal(g, v)
                else:
                    sc = np.max(np.abs(v[np.isfinite(v)]), initial=0.0)
                    ok = np.shape(g) == np.shape(v) and np.allclose(
                        g, v, rtol=rtol, atol=max(tol, rtol*sc if v.ndim else 0),
                        equal_nan=True)
            out.expect(ok, key + n, lambda: 'row %d: %s is %s, expected %s' % (i, n, g, v))


def deblend_split(pix, peaks):
    """nearest peak, as the deblender stand-in does"""
    groups = [[] for _ in peaks]
    for x, y in sorted(set(map(tuple, pix)), key=lambda p: (p[1], p[0])):
        d = [(x - p[0])**2 + (y - p[1])**2 for p in peaks]
        groups[d.index(min(d))].append((x, y))
    return groups


def ref_mfrac(image, xs, ys, J, fwhm=1.2):
    """gaussian weighted mean of an image around local positions, over the pixels within
    5 sigma (rounded to pixels); 1 for positions without any pixel"""
    sigma = fwhm/2.3548200450309493
    r = int(round(5*sigma))
    out = []
    ny, nx = image.shape
    for x, y in zip(xs, ys):
        ix, iy = int(np.floor(x + 0.5)), int(np.floor(y + 0.5))
        n = d = 0.0
        for j in range(iy - r, iy + r + 1):
            for i in range(ix - r, ix + r + 1):
                if 0 <= i < nx and 0 <= j < ny:
                    u = J[0]*(i - x) + J[1]*(j - y)
                    v = J[2]*(i - x) + J[3]*(j - y)
                    if u*u + v*v >= r*r:
                        continue
                    w = np.exp(-0.5*(u*u + v*v)/sigma**2)
                    n += w*float(image[j, i])
                    d += w
        out.append(n/d if d > 0 else 1.0)
    return np.array(out)


def ref_pixel(image, x, y):
    """value at the pixel of a local position, or at the image pixel nearest to it"""
    i = min(max(int(np.floor(x + 0.5)), 0), image.shape[1] - 1)
    j = min(max(int(np.floor(y + 0.5)), 0), image.shape[0] - 1)
    return image[j, i]


def int_center(e):
    bb = e.getBBox()
    return (int(np.floor(bb.minX + (bb.width - 1)/2 + 0.5)),
            int(np.floor(bb.minY + (bb.height - 1)/2 + 0.5)))


def ref_psf_stats(mb, shear_idx):
    """adaptive moments of the psfs at the integer centre of the image, and their means over
    the shear bands with the inverse median variances"""
    import ngmix
    per, sums, ws = [], np.zeros(3), 0.0
    for i, e in enumerate(mb.singles):
        c = int_center(e)
        J = jac_at(e.getWcs(), *c)
        im = psf_image(e, c)
        jac = ngmix.Jacobian(x=(im.shape[1] - 1)/2, y=(im.shape[0] - 1)/2, dudx=J[0],
                             dudy=J[1], dvdx=J[2], dvdy=J[3])
        rng = np.random.RandomState(11)
        res = ngmix.runners.PSFRunner(
            fitter=ngmix.admom.AdmomFitter(rng=rng), ntry=4,
            guesser=ngmix.guessers.GMixPSFGuesser(rng=rng, ngauss=1, guess_from_moms=True)
        ).go(obs=ngmix.Observation(im, jacobian=jac))
        v = e.variance.array
        w = 1/np.median(v[np.isfinite(v) & (v > 0)])
        e1, e2 = res['e']
        per.append((e1, e2, res['T'], w, i in shear_idx))
        if i in shear_idx:
            sums += w*np.array([e1, e2, res['T']])
            ws += w
    e1, e2, T = sums/ws
    n = np.hypot(e1, e2)
    f = np.tanh(0.5*np.arctanh(n))/n if n > 0 else 0.5
    return {'perband': per, 'e1': e1, 'e2': e2, 'T': T, 'g1': e1*f, 'g2': e2*f,
            'navg': len(shear_idx), 'flags': 0}


def median_weights(mb):
    out = []
    for e in mb.singles:
        v = e.variance.array
        out.append(1/np.median(v[np.isfinite(v) & (v > 0)]))
    return out
