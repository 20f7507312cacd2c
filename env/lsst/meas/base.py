"""noise replacement and basic measurements"""
import numpy as np
from ..pipe.base import Task
from ..pex.config import Config, Field, ChoiceField
from .. import geom as _geom
from ..afw.detection import makeHeavyFootprint
from ngmix import env as _env


class NoiseReplacerConfig(Config):
    noiseSource = ChoiceField[str](doc='', default='measure', allowed={
        'measure': '', 'meta': '', 'variance': '', 'variance_median': ''})
    noiseOffset = Field[float](doc='', default=0.0)
    noiseSeedMultiplier = Field[int](doc='', default=1)


class NoiseReplacer(object):
    """replaces the pixels of all footprints; sources are put back one at a time"""
    def __init__(self, config, exposure, footprints, noiseImage=None,
                 exposureId=None, log=None):
        self._ask('init', exposure, None)
        self.noiseSource = config.noiseSource
        self.noiseOffset = config.noiseOffset
        self.noiseSeedMultiplier = config.noiseSeedMultiplier
        self.exposure = exposure
        self.footprints = footprints
        im, mask = exposure.image, exposure.mask
        self.this = 1 << mask.addMaskPlane('THISDET')
        self.other = 1 << mask.addMaskPlane('OTHERDET')
        mask.array[:, :] &= ~(self.this | self.other)
        self.heavies = {}
        for i, (parent, fp) in footprints.items():
            if fp.isHeavy():
                self.heavies[i] = fp
            elif parent == 0:
                self.heavies[i] = makeHeavyFootprint(fp, exposure.maskedImage)
        if noiseImage is None:
            rng = np.random.RandomState(config.noiseSeedMultiplier)
            noiseImage = exposure.maskedImage.clone()
            noiseImage.image.array[:, :] = rng.normal(size=im.array.shape)
        if noiseImage.getBBox() != exposure.getBBox():
            raise ValueError('noise image has another box')
        self.heavyNoise = {}
        for i in footprints:
            fp = footprints[i][1]
            nfp = makeHeavyFootprint(fp, noiseImage)
            self.heavyNoise[i] = nfp
            nfp.insert(im)
            fp.spans.setMask(mask, self.other)

    def _ask(self, op, exposure, sid):
        ans = _env.ask('lsst.noise_replacer', op=op, exposure=exposure, sid=sid)
        if isinstance(ans, BaseException):
            raise ans

    def _used(self, i):
        while self.footprints[i][0] != 0 and i not in self.heavies:
            i = self.footprints[i][0]
        return i

    def insertSource(self, i):
        self._ask('insert', self.exposure, i)
        fp = self.heavies[self._used(i)]
        fp.insert(self.exposure.image)
        fp.spans.setMask(self.exposure.mask, self.this)
        fp.spans.clearMask(self.exposure.mask, self.other)

    def removeSource(self, i):
        self._ask('remove', self.exposure, i)
        fp = self.heavyNoise[self._used(i)]
        fp.insert(self.exposure.image)
        fp.spans.clearMask(self.exposure.mask, self.this)
        fp.spans.setMask(self.exposure.mask, self.other)

    def end(self):
        self._ask('end', self.exposure, None)
        im, mask = self.exposure.image, self.exposure.mask
        for i, (parent, fp) in self.footprints.items():
            if parent == 0:
                self.heavies[i].insert(im)
        mask.array[:, :] &= ~(self.this | self.other)
        del self.exposure


class _Plug(object):
    def __init__(self):
        self.binmax = 16


class _Plugins(object):
    def __init__(self):
        self.names = ['base_SdssCentroid', 'base_SdssShape', 'base_PsfFlux']
        self._p = {}

    def __getitem__(self, n):
        if n not in self.names:
            raise KeyError(n)
        return self._p.setdefault(n, _Plug())


class _Slots(object):
    def __init__(self):
        self.centroid = 'base_SdssCentroid'
        self.shape = 'base_SdssShape'
        self.apFlux = 'a'
        self.modelFlux = self.gaussianFlux = self.calibFlux = self.psfFlux = 'b'


class SingleFrameMeasurementConfig(Config):
    doReplaceWithNoise = Field[bool](doc='', default=True)

    def __init__(self, **kw):
        object.__setattr__(self, 'plugins', _Plugins())
        object.__setattr__(self, 'slots', _Slots())
        object.__setattr__(self, 'noiseReplacer', NoiseReplacerConfig())
        super().__init__(**kw)

    def __setattr__(self, n, v):
        if n in ('plugins', 'slots', 'noiseReplacer'):
            object.__setattr__(self, n, v)
        else:
            super().__setattr__(n, v)


class SingleFrameMeasurementTask(Task):
    ConfigClass = SingleFrameMeasurementConfig
    _DefaultName = 'measurement'

    def __init__(self, schema, **kw):
        super().__init__(**kw)
        schema.addField('base_SdssCentroid_x')
        self.schema = schema

    def callMeasure(self, source, exposure, *a, **kw):
        """centroid (relative to the peak: first moments of the 3x3 pixels) and
        sky position"""
        pk = source.getFootprint().getPeaks()[0]
        ans = _env.ask('lsst.centroid', source=source, exposure=exposure)
        if isinstance(ans, BaseException):
            raise ans
        if ans is None:
            ix, iy = pk.getIx(), pk.getIy()
            bb = _geom.Box2I(_geom.Point2I(ix - 1, iy - 1), _geom.Extent2I(3, 3))
            bb.clip(exposure.getBBox())
            a = np.clip(exposure.image[bb].array.astype('f8'), 0, None)
            s = a.sum()
            if s > 0:
                yy, xx = np.mgrid[:a.shape[0], :a.shape[1]]
                ans = ((a*xx).sum()/s + bb.beginX, (a*yy).sum()/s + bb.beginY)
            else:
                ans = (float(ix), float(iy))
        source._cen = _geom.Point2D(*ans)
        source._coord = exposure.getWcs().pixelToSky(source._cen)
