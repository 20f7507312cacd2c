"""images, masks, masked images, exposures and their multi-band versions.

Sub images are views on the pixels of the parent; coordinates are those of the
parent; multi-band containers made from single exposures copy the pixels."""
import copy as _copy
import numpy as np
from .. import geom as _geom
from ..pex.exceptions import LengthError, InvalidParameterError

LOCAL, PARENT = 'LOCAL', 'PARENT'


class _Base(object):
    _dtype = 'f4'

    def __init__(self, *a, **kw):
        xy0 = kw.get('xy0')
        arr = kw.get('array')
        deep = kw.get('deep', False)
        if 'width' in kw:
            a = (kw['width'], kw['height'])
        dt = kw.get('dtype') or self._dtype
        if arr is None and a:
            if isinstance(a[0], _Base):
                src = a[0]
                x0, y0 = src._x0, src._y0
                if deep or src._a.dtype != np.dtype(dt):
                    arr = src._a.astype(dt)
                else:
                    arr = src._a
                xy0 = _geom.Point2I(x0, y0)
            elif isinstance(a[0], np.ndarray):
                arr = a[0]
                if deep:
                    arr = arr.copy()
                if len(a) > 1:
                    xy0 = a[1] if isinstance(a[1], _geom.Point2I) else xy0
            elif isinstance(a[0], _geom.Box2I):
                b = a[0]
                arr = np.zeros((b.height, b.width), dtype=dt)
                xy0 = b.getMin()
            elif isinstance(a[0], _geom.Extent2I):
                arr = np.zeros((a[0].y, a[0].x), dtype=dt)
            else:
                arr = np.zeros((int(a[1]), int(a[0])), dtype=dt)
        if arr.ndim != 2:
            raise TypeError('need a 2-d array')
        if arr.dtype != np.dtype(dt):
            raise TypeError('array of type %s, expected %s' % (arr.dtype, dt))
        self._a = arr
        self._x0, self._y0 = (0, 0) if xy0 is None else (xy0.x, xy0.y)

    @property
    def array(self):
        return self._a

    @array.setter
    def array(self, v):
        self._a[:, :] = v

    def getArray(self):
        return self._a

    @property
    def dtype(self):
        return self._a.dtype

    def getXY0(self):
        return _geom.Point2I(self._x0, self._y0)

    def getX0(self):
        return self._x0

    def getY0(self):
        return self._y0

    def setXY0(self, p):
        self._x0, self._y0 = p.x, p.y

    def getBBox(self, origin=PARENT):
        h, w = self._a.shape
        return _geom.Box2I(_geom.Point2I(self._x0, self._y0), _geom.Extent2I(w, h))

    def getWidth(self):
        return self._a.shape[1]

    def getHeight(self):
        return self._a.shape[0]

    def getDimensions(self):
        return _geom.Extent2I(self._a.shape[1], self._a.shape[0])

    def _slices(self, bbox):
        if bbox.isEmpty() or not self.getBBox().contains(bbox):
            raise LengthError('box %s does not fit in image %s' % (
                bbox, self.getBBox()))
        y0, x0 = bbox.beginY - self._y0, bbox.beginX - self._x0
        return slice(y0, y0 + bbox.height), slice(x0, x0 + bbox.width)

    def _view(self, arr, x0, y0):
        n = type(self).__new__(type(self))
        n._a, n._x0, n._y0 = arr, x0, y0
        return n

    def __getitem__(self, i):
        if isinstance(i, _geom.Box2I):
            return self._view(self._a[self._slices(i)], i.beginX, i.beginY)
        if isinstance(i, tuple) and len(i) == 2:
            i = _geom.Point2I(i[0], i[1])
        if isinstance(i, _geom.Point2I):
            if not self.getBBox().contains(i):
                raise IndexError('point %r not in the image' % (i,))
            return self._a[i.y - self._y0, i.x - self._x0].item()
        raise TypeError('bad index %r' % (i,))

    def __setitem__(self, i, v):
        self._a[self._slices(i)] = v.array if isinstance(v, _Base) else v

    def clone(self):
        return self._view(self._a.copy(), self._x0, self._y0)

    def __iadd__(self, o):
        self._a += o.array if isinstance(o, _Base) else o
        return self

    def __isub__(self, o):
        self._a -= o.array if isinstance(o, _Base) else o
        return self


class ImageF(_Base):
    _dtype = 'f4'


class ImageD(_Base):
    _dtype = 'f8'


class ImageI(_Base):
    _dtype = 'i4'


_IMG = {np.dtype('f4'): ImageF, np.dtype('f8'): ImageD, np.dtype('i4'): ImageI}


def Image(*a, **kw):
    """the typed factory"""
    dt = kw.pop('dtype', None)
    arr = kw.get('array')
    if dt is None:
        dt = arr.dtype if arr is not None else 'f4'
    if arr is not None and arr.dtype != np.dtype(dt):
        kw['array'] = arr.astype(dt)
    return _IMG[np.dtype(dt)](*a, **kw)


_PLANES = ['BAD', 'SAT', 'INTRP', 'CR', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE',
           'SUSPECT', 'NO_DATA']


def _reset_planes():
    """tests start from the default planes"""
    del _PLANES[9:]


class Mask(_Base):
    _dtype = 'i4'

    def __init__(self, *a, **kw):
        if a and isinstance(a[0], np.ndarray):
            a = (a[0].astype('i4'),) + a[1:]
        super().__init__(*a, **kw)

    @staticmethod
    def addMaskPlane(name):
        if name not in _PLANES:
            if len(_PLANES) >= 31:
                raise RuntimeError('no free planes')
            _PLANES.append(name)
        return _PLANES.index(name)

    @staticmethod
    def getMaskPlane(name):
        if name not in _PLANES:
            raise InvalidParameterError('no mask plane %s' % name)
        return _PLANES.index(name)

    @staticmethod
    def getPlaneBitMask(name):
        if isinstance(name, str):
            return 1 << Mask.getMaskPlane(name)
        out = 0
        for n in name:
            out |= 1 << Mask.getMaskPlane(n)
        return out

    @staticmethod
    def getMaskPlaneDict():
        return {n: i for i, n in enumerate(_PLANES)}

    def clearMaskPlane(self, plane):
        self._a &= ~(1 << plane)

    def removeAndClearMaskPlane(self, name, removeFromDefault=False):
        self.clearMaskPlane(self.getMaskPlane(name))

    def __ior__(self, o):
        self._a |= o.array if isinstance(o, _Base) else o
        return self


MaskX = Mask


class MaskedImage(object):
    _img = ImageF

    def __new__(cls, *a, **kw):
        dt = kw.pop('dtype', None)
        if cls is MaskedImage:
            if dt is None:
                im = kw.get('image', a[0] if a else None)
                dt = im.dtype if im is not None and hasattr(im, 'dtype') else 'f4'
            cls = MaskedImageD if np.dtype(dt) == np.dtype('f8') else MaskedImageF
        return object.__new__(cls)

    def __init__(self, *a, **kw):
        kw.pop('dtype', None)
        if a and not isinstance(a[0], _Base):
            if isinstance(a[0], MaskedImage):
                deep = kw.get('deep', False)
                s = a[0]
                self.image = self._img(s.image, deep=deep)
                self.mask = Mask(s.mask, deep=deep)
                self.variance = ImageF(s.variance, deep=deep)
                return
            self.image = self._img(*a)
            self.mask = Mask(*a)
            self.variance = ImageF(*a)
            return
        image = kw.get('image', a[0] if len(a) else None)
        mask = kw.get('mask', a[1] if len(a) > 1 else None)
        variance = kw.get('variance', a[2] if len(a) > 2 else None)
        if image.dtype != np.dtype(self._img._dtype):
            raise TypeError('image type')
        self.image = image
        bb = image.getBBox()
        self.mask = Mask(bb) if mask is None else mask
        self.variance = ImageF(bb) if variance is None else variance

    def getImage(self):
        return self.image

    def getMask(self):
        return self.mask

    def getVariance(self):
        return self.variance

    def getBBox(self, origin=PARENT):
        return self.image.getBBox()

    def getXY0(self):
        return self.image.getXY0()

    def setXY0(self, p):
        for i in (self.image, self.mask, self.variance):
            i.setXY0(p)

    def getDimensions(self):
        return self.image.getDimensions()

    def __getitem__(self, bbox):
        return type(self)(self.image[bbox], self.mask[bbox], self.variance[bbox])

    def clone(self):
        return type(self)(self, deep=True)


class MaskedImageF(MaskedImage):
    _img = ImageF


class MaskedImageD(MaskedImage):
    _img = ImageD


class FilterLabel(object):
    def __init__(self, band=None, physical=None):
        self.bandLabel = band
        self.physicalLabel = physical

    def hasBandLabel(self):
        return self.bandLabel is not None

    def __eq__(self, o):
        return (isinstance(o, FilterLabel) and self.bandLabel == o.bandLabel
                and self.physicalLabel == o.physicalLabel)

    __hash__ = None


class PropertyList(dict):
    def set(self, k, v):
        self[k] = v

    def getScalar(self, k):
        return self[k]

    def exists(self, k):
        return k in self


class Exposure(object):
    _mi = MaskedImageF

    def __new__(cls, *a, **kw):
        if cls is Exposure:
            dt = kw.get('dtype') or (a[0].image.dtype if a else 'f4')
            cls = ExposureD if np.dtype(dt) == np.dtype('f8') else ExposureF
        return object.__new__(cls)

    def __init__(self, *a, **kw):
        deep = kw.pop('deep', False)
        kw.pop('dtype', None)
        self._psf = self._wcs = self._filter = self._det = None
        self._meta = PropertyList()
        if a and isinstance(a[0], Exposure):
            s = a[0]
            if not deep and type(s) is not type(self):
                raise TypeError('shallow copies cannot change the type')
            self.maskedImage = self._mi(s.maskedImage, deep=deep)
            self._psf, self._wcs, self._filter = s._psf, s._wcs, s._filter
            self._det = s._det
            self._meta = PropertyList(s._meta) if deep else s._meta
        elif a and isinstance(a[0], MaskedImage):
            self.maskedImage = a[0]
            if len(a) > 1:
                self._wcs = a[1]
        else:
            if 'width' in kw:
                a = (kw.pop('width'), kw.pop('height'))
            self.maskedImage = self._mi(*a)

    image = property(lambda s: s.maskedImage.image)
    mask = property(lambda s: s.maskedImage.mask)
    variance = property(lambda s: s.maskedImage.variance)

    @image.setter
    def image(self, v):
        self.maskedImage.image = v

    @mask.setter
    def mask(self, v):
        self.maskedImage.mask = v

    @variance.setter
    def variance(self, v):
        self.maskedImage.variance = v

    def getImage(self):
        return self.image

    def getMask(self):
        return self.mask

    def getVariance(self):
        return self.variance

    def getMaskedImage(self):
        return self.maskedImage

    def getPsf(self):
        return self._psf

    def setPsf(self, p):
        self._psf = p

    def hasPsf(self):
        return self._psf is not None

    def getWcs(self):
        return self._wcs

    def setWcs(self, w):
        self._wcs = w

    def hasWcs(self):
        return self._wcs is not None

    wcs = property(getWcs)
    psf = property(getPsf)

    def getFilter(self):
        return self._filter

    def setFilter(self, f):
        self._filter = f

    filter = property(getFilter)

    def getDetector(self):
        return self._det

    def setDetector(self, d):
        self._det = d

    def getMetadata(self):
        return self._meta

    metadata = property(getMetadata)

    def getXY0(self):
        return self.maskedImage.getXY0()

    def setXY0(self, p):
        self.maskedImage.setXY0(p)

    def getX0(self):
        return self.getXY0().x

    def getY0(self):
        return self.getXY0().y

    def getBBox(self, origin=PARENT):
        return self.maskedImage.getBBox()

    def getDimensions(self):
        return self.maskedImage.getDimensions()

    def getWidth(self):
        return self.getBBox().width

    def getHeight(self):
        return self.getBBox().height

    def __getitem__(self, bbox):
        n = type(self)(self.maskedImage[bbox])
        n._psf, n._wcs, n._filter, n._det = (
            self._psf, self._wcs, self._filter, self._det)
        n._meta = self._meta
        return n

    def clone(self):
        return type(self)(self, deep=True)

    def __deepcopy__(self, memo):
        n = type(self)(self, deep=True)
        n._psf = None
        return n


class ExposureF(Exposure):
    _mi = MaskedImageF


class ExposureD(Exposure):
    _mi = MaskedImageD


class _Multi(object):
    def _init(self, bands, singles):
        self._bands = tuple(bands)
        self._singles = list(singles)
        if len(self._bands) != len(self._singles):
            raise ValueError('bands and singles differ in length')

    bands = property(lambda s: s._bands)
    singles = property(lambda s: s._singles)

    def __len__(self):
        return len(self._bands)

    def __iter__(self):
        return iter(self._singles)

    def getBBox(self):
        return self._singles[0].getBBox()

    def getXY0(self):
        return self._singles[0].getXY0()

    def _bi(self, b):
        if isinstance(b, str):
            if b not in self._bands:
                raise IndexError('no band %s' % b)
            return self._bands.index(b)
        return b

    def __getitem__(self, i):
        if isinstance(i, tuple):
            b, rest = i[0], i[1:]
        else:
            b, rest = i, ()
        if isinstance(b, (str, int, np.integer)):
            s = self._singles[self._bi(b)]
            return s[rest[0]] if rest else s
        if isinstance(b, slice):
            sing, bands = self._singles[b], self._bands[b]
        else:
            idx = [self._bi(x) for x in b]
            sing = [self._singles[k] for k in idx]
            bands = [self._bands[k] for k in idx]
        if rest:
            sing = [s[rest[0]] for s in sing]
        n = type(self).__new__(type(self))
        n._init(bands, sing)
        n._link()
        return n

    def _link(self):
        pass


class MultibandImage(_Multi):
    _cls = None

    def __init__(self, bands, array, bbox=None):
        array = np.asarray(array)
        xy0 = bbox.getMin() if bbox is not None else _geom.Point2I(0, 0)
        if bbox is not None and (bbox.height, bbox.width) != array.shape[1:]:
            raise ValueError('box and array do not match')
        self._array = array
        cls = Mask if self._cls is Mask else _IMG[array.dtype]
        self._init(bands, [_mk(cls, array[i], xy0) for i in range(array.shape[0])])

    @classmethod
    def fromImages(cls, bands, images):
        arr = np.array([i.array for i in images], dtype=images[0].array.dtype)
        return cls(bands, arr, images[0].getBBox())

    @property
    def array(self):
        return self._array

    @array.setter
    def array(self, value):
        self._array[...] = value

    def _link(self):
        self._array = np.stack([s.array for s in self._singles])


class MultibandMask(MultibandImage):
    _cls = Mask
    fromMasks = MultibandImage.fromImages


def _mk(cls, arr, xy0):
    n = cls.__new__(cls)
    n._a, n._x0, n._y0 = arr, xy0.x, xy0.y
    return n


class MultibandExposure(_Multi):
    def __init__(self, bands, image, mask, variance, psfs=None):
        self._image, self._mask, self._variance = image, mask, variance
        dt = image.array.dtype
        cls = ExposureD if dt == np.dtype('f8') else ExposureF
        mi = MaskedImageD if dt == np.dtype('f8') else MaskedImageF
        self._init(bands, [
            cls(mi(i, m, v)) for i, m, v in zip(
                image.singles, mask.singles, variance.singles)])
        if psfs is not None:
            for s, p in zip(self._singles, psfs):
                s.setPsf(p)

    image = property(lambda s: s._image)
    mask = property(lambda s: s._mask)
    variance = property(lambda s: s._variance)

    @staticmethod
    def fromExposures(bands, singles):
        singles = list(singles)
        bb = singles[0].getBBox()
        if not all(s.getBBox() == bb for s in singles):
            raise NotImplementedError('different bounding boxes')
        im = MultibandImage.fromImages(bands, [s.image for s in singles])
        mk = MultibandMask.fromImages(bands, [s.mask for s in singles])
        va = MultibandImage.fromImages(bands, [s.variance for s in singles])
        return MultibandExposure(bands, im, mk, va, [s.getPsf() for s in singles])

    def _link(self):
        self._image = MultibandImage.fromImages(
            self._bands, [s.image for s in self._singles])
        self._mask = MultibandMask.fromImages(
            self._bands, [s.mask for s in self._singles])
        self._variance = MultibandImage.fromImages(
            self._bands, [s.variance for s in self._singles])

    def clone(self, deep=True):
        """neither psf nor wcs nor filter survive"""
        return MultibandExposure(
            self._bands,
            MultibandImage.fromImages(self._bands, [s.image for s in self]),
            MultibandMask.fromImages(self._bands, [s.mask for s in self]),
            MultibandImage.fromImages(self._bands, [s.variance for s in self]))


_ = _copy
