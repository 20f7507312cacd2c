"""points, extents, boxes: integer boxes have inclusive limits; the pixel with
index i covers [i-0.5, i+0.5)"""
import math


class _Deg(object):
    pass


arcseconds = _Deg()
degrees = _Deg()


class Angle(object):
    def __init__(self, deg):
        self._d = float(deg)

    def asDegrees(self):
        return self._d

    def asArcseconds(self):
        return self._d*3600

    def asRadians(self):
        return math.radians(self._d)


class _P2(object):
    _int = False

    def __init__(self, x=0, y=None):
        if y is None:
            if isinstance(x, _P2):
                x, y = x.getX(), x.getY()
            elif isinstance(x, (tuple, list)):
                x, y = x
            elif hasattr(x, '__len__'):
                x, y = x[0], x[1]
            elif self._int and x == 0:
                y = 0
            else:
                y = x
            if self._int:
                x, y = int(math.floor(x + 0.5)), int(math.floor(y + 0.5))
        if self._int:
            if int(x) != x or int(y) != y:
                raise TypeError('integer coordinates required')
            self._v = (int(x), int(y))
        else:
            self._v = (float(x), float(y))

    x = property(lambda s: s._v[0])
    y = property(lambda s: s._v[1])

    def getX(self):
        return self._v[0]

    def getY(self):
        return self._v[1]

    def __getitem__(self, i):
        return self._v[i]

    def __len__(self):
        return 2

    def __iter__(self):
        return iter(self._v)

    def __eq__(self, o):
        return isinstance(o, _P2) and self._v == o._v

    def __hash__(self):
        return hash(self._v)

    def __repr__(self):
        return '%s(%r, %r)' % ((type(self).__name__,) + self._v)


class _Extent(_P2):
    pass


class _Point(_P2):
    pass


class Extent2D(_Extent):
    pass


class Extent2I(_Extent):
    _int = True


class Point2D(_Point):
    def __add__(self, o):
        return Point2D(self.x + o.x, self.y + o.y)

    def __sub__(self, o):
        if isinstance(o, _Extent):
            return Point2D(self.x - o.x, self.y - o.y)
        return Extent2D(self.x - o.x, self.y - o.y)


class Point2I(_Point):
    _int = True

    def __add__(self, o):
        return Point2I(self.x + o.x, self.y + o.y)

    def __sub__(self, o):
        if isinstance(o, _Extent):
            return Point2I(self.x - o.x, self.y - o.y)
        return Extent2I(self.x - o.x, self.y - o.y)


PointD = Point2D
PointI = Point2I


class Box2I(object):
    def __init__(self, minimum=None, dims=None, **kw):
        if 'minimum' in kw:
            minimum = kw['minimum']
        if 'dimensions' in kw:
            dims = kw['dimensions']
        if isinstance(minimum, Box2I):
            self._b = minimum._b
            return
        if minimum is None:
            self._b = (0, 0, 0, 0)
            return
        if isinstance(dims, _Extent):
            w, h = dims.x, dims.y
        else:
            w, h = dims.x - minimum.x + 1, dims.y - minimum.y + 1
        if w <= 0 or h <= 0:
            self._b = (0, 0, 0, 0)
        else:
            self._b = (minimum.x, minimum.y, w, h)

    def isEmpty(self):
        return self._b[2] == 0

    def getBeginX(self):
        return self._b[0]

    def getBeginY(self):
        return self._b[1]

    def getEndX(self):
        return self._b[0] + self._b[2]

    def getEndY(self):
        return self._b[1] + self._b[3]

    def getMinX(self):
        return self._b[0]

    def getMinY(self):
        return self._b[1]

    def getMaxX(self):
        return self._b[0] + self._b[2] - 1

    def getMaxY(self):
        return self._b[1] + self._b[3] - 1

    beginX = property(getBeginX)
    beginY = property(getBeginY)
    endX = property(getEndX)
    endY = property(getEndY)
    minX = property(getMinX)
    minY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    width = property(lambda s: s._b[2])
    height = property(lambda s: s._b[3])

    def getWidth(self):
        return self._b[2]

    def getHeight(self):
        return self._b[3]

    def getArea(self):
        return self._b[2]*self._b[3]

    def getBegin(self):
        return Point2I(self._b[0], self._b[1])

    getMin = getBegin

    def getMax(self):
        return Point2I(self.getMaxX(), self.getMaxY())

    def getEnd(self):
        return Point2I(self.getEndX(), self.getEndY())

    def getDimensions(self):
        return Extent2I(self._b[2], self._b[3])

    def getCenter(self):
        return Point2D(self._b[0] - 0.5 + self._b[2]/2.0,
                       self._b[1] - 0.5 + self._b[3]/2.0)

    getCenterX = lambda s: s.getCenter().x  # noqa
    getCenterY = lambda s: s.getCenter().y  # noqa

    def contains(self, o):
        if isinstance(o, Box2I):
            if o.isEmpty():
                return True
            return (o.minX >= self.minX and o.maxX <= self.maxX
                    and o.minY >= self.minY and o.maxY <= self.maxY)
        x, y = Point2I(o) if not isinstance(o, Point2I) else o
        return self.minX <= x <= self.maxX and self.minY <= y <= self.maxY

    def grow(self, n):
        if isinstance(n, _Extent):
            gx, gy = n.x, n.y
        else:
            if int(n) != n:
                raise TypeError('grow needs an integer')
            gx = gy = int(n)
        if self.isEmpty():
            return
        x, y, w, h = self._b
        w, h = w + 2*gx, h + 2*gy
        self._b = (x - gx, y - gy, w, h) if w > 0 and h > 0 else (0, 0, 0, 0)

    def clip(self, o):
        x0, y0 = max(self.minX, o.minX), max(self.minY, o.minY)
        x1, y1 = min(self.maxX, o.maxX), min(self.maxY, o.maxY)
        if self.isEmpty() or o.isEmpty() or x1 < x0 or y1 < y0:
            self._b = (0, 0, 0, 0)
        else:
            self._b = (x0, y0, x1 - x0 + 1, y1 - y0 + 1)

    def __eq__(self, o):
        return isinstance(o, Box2I) and self._b == o._b

    __hash__ = None

    def __repr__(self):
        return 'Box2I(min=(%d,%d), dims=(%d,%d))' % self._b


BoxI = Box2I


class SpherePoint(object):
    def __init__(self, ra, dec, units=degrees):
        self._ra = ra.asDegrees() if isinstance(ra, Angle) else float(ra)
        self._dec = dec.asDegrees() if isinstance(dec, Angle) else float(dec)

    def getRa(self):
        return Angle(self._ra)

    def getDec(self):
        return Angle(self._dec)

    getLongitude = getRa
    getLatitude = getDec

    def __eq__(self, o):
        return (self._ra, self._dec) == (o._ra, o._dec)

    __hash__ = None
