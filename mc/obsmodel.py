"""Reference model of the mask bookkeeping on an observation bundle."""
import numpy as np
import ngmix


def disc(dims, holes):
    """holes: list of (x, y, r): pixels strictly closer than r to (x, y)"""
    m = np.zeros(dims, dtype=bool)
    for x, y, r in holes:
        for i in range(dims[0]):
            for j in range(dims[1]):
                if (i-y)**2 + (j-x)**2 < r*r:
                    m[i, j] = True
    return m


def kern(d, m, h):
    """cumulative triweight kernel, 0 at d=m-6h, 1 at d=m"""
    t = ((d - m)/h + 3)/3.0
    if t < -1:
        return 0.0
    if t > 1:
        return 1.0
    return 0.5 + 35.0/32.0*(t - t**3 + 0.6*t**5 - t**7/7.0)


def apodization(dims, holes, h):
    a = np.ones(dims)
    for x, y, r in holes:
        for i in range(dims[0]):
            for j in range(dims[1]):
                d2 = (i-y)**2 + (j-x)**2
                if d2 < r*r:
                    a[i, j] *= kern(np.sqrt(d2), r, h)
    return a


def edge_apodization(dims, h):
    rng = int(6*h + 0.5)
    a = np.ones(dims)
    ny, nx = dims
    for i in range(ny):
        for j in range(nx):
            for d in (i, ny-1-i, j, nx-1-j):
                if d <= rng:
                    a[i, j] *= kern(d, rng, h)
    return a


FIELDS = ('image', 'noise', 'weight', 'bmask', 'mfrac', 'ormask')


def snap(obs):
    d = {}
    for f in FIELDS:
        if getattr(obs, '_' + f, None) is not None:
            d[f] = np.array(getattr(obs, f))
    d['jac'] = repr(obs.jacobian)
    d['psf'] = np.array(obs.psf.image) if obs.has_psf() else None
    d['meta'] = repr(obs.meta)
    d['izw'] = bool(obs.ignore_zero_weight)
    return d


def make_obs(dims, band=0, mfrac=True, weight=None, image=None, noise=None,
             bmask=None, scale=0.25, psf=True, ormask=True):
    r, c = np.mgrid[:dims[0], :dims[1]]
    if image is None:
        image = 10.0 + band + 0.5*r - 0.25*c
    if noise is None:
        noise = -3.0 + 0.125*r + 0.375*c + band
    if weight is None:
        weight = np.full(dims, 4.0 + band)
    if bmask is None:
        bmask = ((r + 2*c + band) % 3 == 0).astype('i4')*2
    kw = {}
    if mfrac:
        kw['mfrac'] = 0.1 + 0.01*r + 0.02*c
    if ormask:
        kw['ormask'] = ((r + c + band) % 4 == 0).astype('i4')*4
    if psf:
        pim = np.ones((3, 3))
        pim[1, 1] = 5.0
        kw['psf'] = ngmix.Observation(pim, jacobian=ngmix.DiagonalJacobian(
            row=1, col=1, scale=scale))
    return ngmix.Observation(
        image, weight=weight, bmask=bmask, noise=noise,
        jacobian=ngmix.DiagonalJacobian(row=(dims[0]-1)/2, col=(dims[1]-1)/2,
                                        scale=scale),
        ignore_zero_weight=bool(np.any(weight > 0)),
        meta={'band': band}, **kw)


def make_mbobs(obs_list, per_band=1):
    mb = ngmix.MultiBandObsList()
    for i, o in enumerate(obs_list):
        if i % per_band == 0:
            ol = ngmix.ObsList()
            mb.append(ol)
        ol.append(o)
    return mb
