"""detection, background subtraction, kernel psfs"""
import numpy as np
from ..pipe.base import Task, Struct
from ..pex.config import Config, Field, RangeField, ChoiceField, ListField, ConfigField
from ..pex.exceptions import InvalidParameterError, RuntimeError as LsstRuntimeError
from ..afw import table as _table
from ..afw.detection import Footprint
from ..afw.geom import SpanSet
from ..afw.image import Mask, ImageD
from ngmix import env as _env


class KernelPsf(object):
    def __init__(self, kernel, avg=None):
        self._im = kernel._im.copy()

    def computeKernelImage(self, pos=None, *a):
        im = self._im
        return ImageD(im/im.sum(), deep=True)

    def computeImage(self, pos=None, *a):
        return self.computeKernelImage(pos)

    def clone(self):
        n = object.__new__(KernelPsf)
        n._im = self._im.copy()
        return n


class FuncPsf(object):
    """position dependent psf: f(x, y) gives the image, or raises"""
    def __init__(self, f, can_clone=True):
        self.f, self.can_clone = f, can_clone
        self.asked = []

    def computeKernelImage(self, pos):
        self.asked.append((pos.x, pos.y))
        im = self.f(pos.x, pos.y)
        if im is None:
            raise InvalidParameterError('no psf at this position')
        return ImageD(np.array(im, dtype='f8'))

    def clone(self):
        if not self.can_clone:
            raise LsstRuntimeError('cannot clone')
        return FuncPsf(self.f)


class _Bg(Config):
    binSize = Field[int](doc='', default=128)


class SourceDetectionConfig(Config):
    minPixels = RangeField[int](doc='', default=1, min=0)
    isotropicGrow = Field[bool](doc='', default=True)
    combinedGrow = Field[bool](doc='', default=True)
    nSigmaToGrow = Field[float](doc='', default=2.4)
    returnOriginalFootprints = Field[bool](doc='', default=False)
    thresholdValue = RangeField[float](doc='', default=5.0, min=0.0)
    includeThresholdMultiplier = RangeField[float](doc='', default=1.0, min=0.0)
    thresholdType = ChoiceField[str](doc='', default='pixel_stdev', allowed={
        'variance': '', 'stdev': '', 'value': '', 'pixel_stdev': ''})
    thresholdPolarity = ChoiceField[str](doc='', default='positive', allowed={
        'positive': '', 'negative': '', 'both': ''})
    adjustBackground = Field[float](doc='', default=0.0)
    doApplyFlatBackgroundRatio = Field[bool](doc='', default=False)
    reEstimateBackground = Field[bool](doc='', default=True)
    background = ConfigField[_Bg](doc='')
    nPeaksMaxSimple = Field[int](doc='', default=1)
    nSigmaForKernel = Field[float](doc='', default=7.0)
    statsMask = ListField[str](doc='', default=[
        'BAD', 'SAT', 'EDGE', 'NO_DATA'])
    excludeMaskPlanes = ListField[str](doc='', default=[])


def threshold_plan(exposure, config):
    """the default detector: connected pixels above threshold outside of the
    excluded planes; a peak is a local maximum over its 8 neighbours"""
    from scipy import ndimage
    im = exposure.image.array
    var = exposure.variance.array
    bad = np.zeros(im.shape, bool)
    for p in config.excludeMaskPlanes:
        bad |= (exposure.mask.array & Mask.getPlaneBitMask(p)) != 0
    good = np.isfinite(var) & (var > 0) & np.isfinite(im)
    if not np.any(good):
        return []
    thr = config.thresholdValue*np.sqrt(np.median(var[good]))
    above = (im > thr) & ~bad & np.isfinite(im)
    lab, n = ndimage.label(above, structure=np.ones((3, 3)))
    x0, y0 = exposure.getXY0()
    out = []
    mx = ndimage.maximum_filter(np.where(above, im, -np.inf), size=3)
    for k in range(1, n + 1):
        ys, xs = np.where(lab == k)
        if ys.size < config.minPixels:
            continue
        pk = [(int(x) + x0, int(y) + y0) for y, x in zip(ys, xs)
              if im[y, x] == mx[y, x]]
        pk.sort(key=lambda p: -im[p[1] - y0, p[0] - x0])
        out.append({'peaks': pk, 'pix': [(int(x) + x0, int(y) + y0)
                                         for y, x in zip(ys, xs)]})
    return out


class SourceDetectionTask(Task):
    ConfigClass = SourceDetectionConfig
    _DefaultName = 'sourceDetection'

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)
        if schema is not None:
            schema.addField('flags_negative')
        self.schema = schema

    def run(self, table, exposure, doSmooth=True, sigma=None, clearMask=True):
        ans = _env.ask('lsst.detect', exposure=exposure, config=self.config)
        if isinstance(ans, BaseException):
            raise ans
        plan = threshold_plan(exposure, self.config) if ans is None else ans
        det = Mask.getPlaneBitMask('DETECTED')
        if clearMask:
            exposure.mask.array[:, :] &= ~det
        cat = _table.SourceCatalog(table)
        if self.schema is not None and table.schema is not self.schema:
            raise ValueError('table has another schema')
        for o in plan:
            fp = Footprint(SpanSet(o['pix']))
            for x, y in o['peaks']:
                fp.addPeak(x, y, 1.0)
            fp.spans.setMask(exposure.mask, det)
            cat.addNew().setFootprint(fp)
        return Struct(sources=cat, positive=len(plan), numPos=len(plan))


class SubtractBackgroundConfig(Config):
    ignoredPixelMask = ListField[str](doc='', default=[
        'BAD', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE', 'NO_DATA'])
    binSize = Field[int](doc='', default=128)


class SubtractBackgroundTask(Task):
    """subtracts the median of the pixels that are not ignored, and records it"""
    ConfigClass = SubtractBackgroundConfig
    _DefaultName = 'subtractBackground'

    def run(self, exposure, *a, **kw):
        ans = _env.ask('lsst.background', exposure=exposure, config=self.config)
        if isinstance(ans, BaseException):
            raise ans
        bit = Mask.getPlaneBitMask(list(self.config.ignoredPixelMask))
        use = (exposure.mask.array & bit) == 0
        if ans is None:
            if not use.any():
                raise LsstRuntimeError(
                    'lsst::pex::exceptions::RuntimeError: no pixels')
            ans = float(np.median(exposure.image.array[use]))
        exposure.image.array[:, :] -= ans
        exposure.getMetadata()['BGMEAN'] = ans
        exposure.getMetadata()['BGVAR'] = 1.0
        return Struct(background=ans)
