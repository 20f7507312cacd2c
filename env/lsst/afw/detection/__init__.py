"""footprints"""
import numpy as np
from ... import geom as _geom
from ..geom import SpanSet


class PeakRecord(object):
    def __init__(self, x, y, value=0.0):
        self._x, self._y, self._v = x, y, value

    def getIx(self):
        return int(np.floor(self._x + 0.5))

    def getIy(self):
        return int(np.floor(self._y + 0.5))

    def getFx(self):
        return float(self._x)

    def getFy(self):
        return float(self._y)

    def getI(self):
        return _geom.Point2I(self.getIx(), self.getIy())

    def getF(self):
        return _geom.Point2D(self._x, self._y)

    getCentroid = getF

    def getPeakValue(self):
        return self._v


class Footprint(object):
    def __init__(self, spans=None, region=None):
        self.spans = spans if spans is not None else SpanSet()
        self.peaks = []

    def addPeak(self, x, y, value):
        self.peaks.append(PeakRecord(x, y, value))

    def getPeaks(self):
        return self.peaks

    def getSpans(self):
        return self.spans

    def getBBox(self):
        return self.spans.getBBox()

    def getArea(self):
        return self.spans.getArea()

    def contains(self, p):
        return self.spans.contains(p)

    def isHeavy(self):
        return False


class HeavyFootprintF(Footprint):
    def __init__(self, foot, values):
        self.spans = foot.spans
        self.peaks = list(foot.peaks)
        self._val = np.array(values, dtype='f4')

    def isHeavy(self):
        return True

    def getImageArray(self):
        return self._val

    def _im(self, im):
        return im.image if hasattr(im, 'maskedImage') or hasattr(im, 'variance') else im

    def insert(self, im):
        im = self._im(im)
        im.array[self.spans._idx(im)] = self._val

    def addTo(self, im):
        im = self._im(im)
        im.array[self.spans._idx(im)] += self._val

    def subtractFrom(self, im):
        im = self._im(im)
        im.array[self.spans._idx(im)] -= self._val

    def extractImage(self, fill=0.0, bbox=None, imageType=None):
        from ..image import ImageF
        im = ImageF(self.getBBox() if bbox is None else bbox)
        im.array[:, :] = fill
        im.array[self.spans._idx(im)] = self._val
        return im


def makeHeavyFootprint(foot, mi):
    return HeavyFootprintF(foot, mi.image.array[foot.spans._idx(mi.image)])
