import numpy as np


class FixedKernel(object):
    def __init__(self, image):
        self._im = np.array(image.array, dtype='f8')

    def getDimensions(self):
        from .. import geom
        return geom.Extent2I(self._im.shape[1], self._im.shape[0])
