"""one model per peak; models are given by the environment or simple bumps"""
import numpy as np
from ....pipe.base import Task, Struct
from ....pex.config import Config, Field
from ....scarlet import lite as _lite
from ....afw import table as _table
from ....afw.detection import Footprint
from ....afw.image import Exposure
from ...deblender import split
from ngmix import env as _env


class DeconvolveExposureConfig(Config):
    maxIter = Field[int](doc='', default=100)


class DeconvolveExposureTask(Task):
    ConfigClass = DeconvolveExposureConfig
    _DefaultName = 'deconvolveExposure'

    def run(self, coadd, catalog, band=None, **kw):
        n = type(coadd)(coadd, deep=True)
        assert isinstance(n, Exposure)
        return Struct(deconvolved=n)


class ScarletDeblendConfig(Config):
    maxFootprintArea = Field[int](doc='', default=1000000)
    processSingles = Field[bool](doc='', default=False)


class BlendData(object):
    """sources: list of (sid, Image, center)"""
    def __init__(self, sources, bbox):
        self.sources, self.bbox = sources, bbox

    def minimal_data_to_blend(self, model_psf, psf, bands):
        obs = _lite.Observation(bands, psf, self.bbox)
        return _lite.Blend([
            _lite.Source(im, cen, {'id': sid}) for sid, im, cen in self.sources], obs)


class HierarchicalBlendData(object):
    def __init__(self, children):
        self.children = children


class ModelData(object):
    def __init__(self, metadata, blends):
        self.metadata, self.blends = metadata, blends


class ScarletDeblendTask(Task):
    ConfigClass = ScarletDeblendConfig
    _DefaultName = 'scarletDeblend'

    def __init__(self, schema, peakSchema=None, **kw):
        super().__init__(**kw)
        schema.addField('deblend_nChild', 0)
        self.schema = schema
        self.objectSchema = schema

    def run(self, mExposure, mDeconvolved, mergedSources):
        ans = _env.ask('lsst.scarlet', mbexp=mExposure, sources=mergedSources)
        if isinstance(ans, BaseException):
            raise ans
        bands = tuple(mExposure.bands)
        bb = mExposure.getBBox()
        box = _lite.Box((bb.height, bb.width), (bb.beginY, bb.beginX))
        psf = np.zeros((len(bands), 3, 3))
        psf[:, 1, 1] = 1.0
        if callable(ans):
            return ans(mExposure, mergedSources, bands, box, psf)
        cat = _table.SourceCatalog(mergedSources.table)
        parents = list(mergedSources)
        for p in parents:
            cat.append(p)
        blends = {}
        for p in parents:
            fps = split(p.getFootprint())
            if len(fps) == 1 and not self.config.processSingles:
                p['deblend_nChild'] = 0
                continue
            p['deblend_nChild'] = len(fps)
            srcs = []
            for f in fps:
                c = cat.addNew()
                c.setParent(p.getId())
                c.setFootprint(f)
                fb = f.getBBox()
                data = np.zeros((len(bands), fb.height, fb.width), 'f4')
                for i, b in enumerate(bands):
                    im = mExposure[b].image
                    data[i][f.spans.ys - fb.beginY, f.spans.xs - fb.beginX] = \
                        im.array[f.spans._idx(im)]
                pk = f.getPeaks()[0]
                srcs.append((c.getId(), _lite.Image(data, bands, (fb.beginY, fb.beginX)),
                             (pk.getIy(), pk.getIx())))
            blends[p.getId()] = HierarchicalBlendData(
                {p.getId(): BlendData(srcs, box)})
        md = ModelData({'bands': bands, 'model_psf': np.ones((1, 1)), 'psf': psf}, blends)
        return Struct(scarletModelData=md, deblendedCatalog=cat)


_ = Footprint
