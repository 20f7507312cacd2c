"""boxes, images, sources, observations and blends of scarlet lite"""
import numpy as np


class Box(object):
    def __init__(self, shape, origin=(0, 0)):
        self.shape, self.origin = tuple(shape), tuple(origin)

    def grow(self, r):
        dy, dx = r if isinstance(r, tuple) else (r, r)
        return Box((self.shape[0] + 2*dy, self.shape[1] + 2*dx),
                   (self.origin[0] - dy, self.origin[1] - dx))

    def __and__(self, o):
        y0, x0 = max(self.origin[0], o.origin[0]), max(self.origin[1], o.origin[1])
        y1 = min(self.origin[0] + self.shape[0], o.origin[0] + o.shape[0])
        x1 = min(self.origin[1] + self.shape[1], o.origin[1] + o.shape[1])
        return Box((max(0, y1 - y0), max(0, x1 - x0)), (y0, x0))


class Image(object):
    def __init__(self, data, bands, yx0=(0, 0)):
        self.data, self.bands, self.yx0 = np.asarray(data), tuple(bands), tuple(yx0)

    n_bands = property(lambda s: len(s.bands))
    dtype = property(lambda s: s.data.dtype)
    bbox = property(lambda s: Box(s.data.shape[-2:], s.yx0))

    def project(self, bbox=None, bands=None):
        out = np.zeros((self.n_bands,) + bbox.shape, dtype=self.data.dtype)
        ov = bbox & self.bbox
        if min(ov.shape) > 0:
            def sl(b):
                y, x = ov.origin[0] - b.origin[0], ov.origin[1] - b.origin[1]
                return slice(y, y + ov.shape[0]), slice(x, x + ov.shape[1])
            out[(slice(None),) + sl(bbox)] = self.data[(slice(None),) + sl(self.bbox)]
        return Image(out, self.bands, bbox.origin)


class Source(object):
    def __init__(self, model, center, metadata):
        self._m, self.center, self.metadata = model, center, metadata
        self.flux_weighted_image = model

    bbox = property(lambda s: s._m.bbox)
    n_bands = property(lambda s: s._m.n_bands)

    def get_model(self, use_flux=False):
        return Image(self._m.data.copy(), self._m.bands, self._m.yx0)


class Observation(object):
    def __init__(self, bands, psfs, bbox):
        self.bands, self.psfs, self.bbox = tuple(bands), np.asarray(psfs), bbox

    def convolve(self, image, mode=None, grad=False):
        from scipy import ndimage
        data = np.stack([
            ndimage.convolve(d, p, mode='constant')
            for d, p in zip(image.data, self.psfs)])
        return Image(data.astype(image.dtype), image.bands, image.yx0)


class Blend(object):
    def __init__(self, sources, observation):
        self.sources, self.observation = sources, observation

    bbox = property(lambda s: s.observation.bbox)
