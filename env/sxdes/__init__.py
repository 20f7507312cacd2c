"""stand-in for sxdes.run_sep: answers come from ngmix.env ('detect'), or, by
default, local maxima of image above thresh*noise on unmasked pixels."""
import numpy as np
from ngmix import env as _env

SX_CONFIG = {
    'deblend_cont': 0.00001, 'deblend_nthresh': 64, 'minarea': 4,
    'filter_type': 'conv', 'filter_kernel': np.ones((3, 3)),
}
DETECT_THRESH = 0.8

DTYPE = [
    ('number', 'i4'), ('x', 'f8'), ('y', 'f8'), ('a', 'f8'), ('b', 'f8'),
    ('xmin', 'i8'), ('xmax', 'i8'), ('ymin', 'i8'), ('ymax', 'i8'),
    ('flux_radius', 'f8'), ('iso_radius', 'f8'), ('flux_auto', 'f8'),
    ('flags', 'i4'), ('ext_flags', 'i4'), ('npix', 'i8'),
]


def make_objs(rows):
    """rows: list of dicts (missing fields get defaults)"""
    o = np.zeros(len(rows), dtype=DTYPE)
    for i, r in enumerate(rows):
        o['number'][i] = i + 1
        d = dict(a=1.0, b=1.0, flux_radius=1.5, iso_radius=2.0)
        d.update(r)
        d.setdefault('xmin', int(d['x']) - 1)
        d.setdefault('xmax', int(d['x']) + 1)
        d.setdefault('ymin', int(d['y']) - 1)
        d.setdefault('ymax', int(d['y']) + 1)
        for k, v in d.items():
            o[k][i] = v
    return o


def run_sep(image, noise, config=SX_CONFIG, thresh=DETECT_THRESH, mask=None):
    ans = _env.ask('detect', image=image, noise=noise, config=config,
                   thresh=thresh, mask=mask)
    if ans is not None:
        if isinstance(ans, BaseException):
            raise ans
        return ans
    ny, nx = image.shape
    m = np.zeros(image.shape, dtype=bool) if mask is None else mask
    rows = []
    seg = np.zeros(image.shape, dtype='i4')
    for r in range(ny):
        for c in range(nx):
            if m[r, c] or not image[r, c] > thresh*noise:
                continue
            sub = image[max(0, r-1):r+2, max(0, c-1):c+2]
            if image[r, c] >= sub.max():
                rows.append({'x': float(c), 'y': float(r)})
                seg[r, c] = len(rows)
    return make_objs(rows), seg
