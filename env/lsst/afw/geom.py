"""SkyWcs: a mildly non linear, exactly invertible pixel to sky map; SpanSet"""
import numpy as np
from .. import geom as _geom
from ..pex.exceptions import InvalidParameterError  # noqa


class _Lin(object):
    def __init__(self, m):
        self._m = m

    def getMatrix(self):
        return self._m.copy()


class _Affine(object):
    def __init__(self, m):
        self._m = m

    def getLinear(self):
        return _Lin(self._m)


class SkyWcs(object):
    """sky = crval + cd . (d + q d^2 / 2), d = pixel - crpix as a complex number;
    angles are preserved up to what cd does"""
    def __init__(self, crpix, crval, cd, q=0):
        self.crpix = tuple(map(float, crpix))
        self.crval = tuple(map(float, crval))
        self.cd = np.array(cd, dtype='f8')
        self.q = complex(q)
        self.inv = np.linalg.inv(self.cd)

    def _p2s(self, x, y):
        d = (x - self.crpix[0]) + 1j*(y - self.crpix[1])
        f = d + self.q*d**2/2 if self.q != 0 else d
        return (self.crval[0] + self.cd[0, 0]*f.real + self.cd[0, 1]*f.imag,
                self.crval[1] + self.cd[1, 0]*f.real + self.cd[1, 1]*f.imag)

    def _s2p(self, ra, dec):
        a, d = ra - self.crval[0], dec - self.crval[1]
        fx = self.inv[0, 0]*a + self.inv[0, 1]*d
        fy = self.inv[1, 0]*a + self.inv[1, 1]*d
        if self.q != 0:
            f = fx + 1j*fy
            f = 2*f/(1 + np.sqrt(1 + 2*self.q*f))
            fx, fy = f.real, f.imag
        return fx + self.crpix[0], fy + self.crpix[1]

    def pixelToSky(self, *a):
        x, y = a if len(a) == 2 else (a[0].getX(), a[0].getY())
        return _geom.SpherePoint(*self._p2s(x, y))

    def skyToPixel(self, p):
        return _geom.Point2D(*self._s2p(p._ra, p._dec))

    def pixelToSkyArray(self, x, y, degrees=False):
        ra, dec = self._p2s(np.asarray(x, 'f8'), np.asarray(y, 'f8'))
        return (ra, dec) if degrees else (np.deg2rad(ra), np.deg2rad(dec))

    def skyToPixelArray(self, ra, dec, degrees=False):
        ra, dec = np.array(ra, 'f8'), np.array(dec, 'f8')
        if not degrees:
            ra, dec = np.rad2deg(ra), np.rad2deg(dec)
        x, y = self._s2p(ra, dec)
        return x, y

    def linearizePixelToSky(self, cen, unit):
        if not isinstance(cen, _geom.Point2D):
            raise TypeError('Point2D required')
        if unit is not _geom.arcseconds:
            raise TypeError('unit')
        j = 1 + self.q*((cen.x - self.crpix[0]) + 1j*(cen.y - self.crpix[1]))
        j = np.array([[j.real, -j.imag], [j.imag, j.real]])
        return _Affine(3600*self.cd @ j)

    def getPixelScale(self, *a):
        return _geom.Angle(np.sqrt(abs(np.linalg.det(self.cd))))

    def __eq__(self, o):
        return (isinstance(o, SkyWcs) and self.crpix == o.crpix and self.q == o.q
                and self.crval == o.crval and np.array_equal(self.cd, o.cd))

    __hash__ = None


class SpanSet(object):
    """a set of integer pixels, kept in row order"""
    def __init__(self, pixels=()):
        if isinstance(pixels, _geom.Box2I):
            pixels = [(x, y) for y in range(pixels.beginY, pixels.endY)
                      for x in range(pixels.beginX, pixels.endX)]
        self._p = sorted({(int(y), int(x)) for x, y in pixels})
        self.ys = np.array([p[0] for p in self._p], dtype=int)
        self.xs = np.array([p[1] for p in self._p], dtype=int)

    @staticmethod
    def fromMask(mask, bitmask=None):
        a = mask.array
        use = (a != 0) if bitmask is None else (a & bitmask) != 0
        y, x = np.where(use)
        x0, y0 = mask.getXY0()
        return SpanSet(zip(x + x0, y + y0))

    def getArea(self):
        return len(self._p)

    def getBBox(self):
        if not self._p:
            return _geom.Box2I()
        return _geom.Box2I(
            _geom.Point2I(int(self.xs.min()), int(self.ys.min())),
            _geom.Point2I(int(self.xs.max()), int(self.ys.max())))

    def contains(self, p):
        return (p.y, p.x) in set(self._p)

    def clippedTo(self, bbox):
        return SpanSet([(x, y) for y, x in self._p
                        if bbox.contains(_geom.Point2I(x, y))])

    def _idx(self, im):
        """array indices of the pixels in an image; they must all be inside"""
        bb = im.getBBox()
        if self._p and not bb.contains(self.getBBox()):
            from ..pex.exceptions import OutOfRangeError
            raise OutOfRangeError('footprint is not contained in the image')
        return self.ys - bb.beginY, self.xs - bb.beginX

    def setMask(self, mask, bit):
        mask.array[self._idx(mask)] |= bit

    def clearMask(self, mask, bit):
        mask.array[self._idx(mask)] &= ~bit

    def __eq__(self, o):
        return self._p == o._p

    __hash__ = None
