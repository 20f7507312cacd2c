"""every pixel of a footprint with several peaks goes to the nearest peak"""
from ..pipe.base import Task
from ..pex.config import Config, Field
from ..afw.detection import Footprint, makeHeavyFootprint
from ..afw.geom import SpanSet
from ngmix import env as _env


class SourceDeblendConfig(Config):
    maxFootprintArea = Field[int](doc='', default=1000000)


def split(fp):
    groups = [[] for _ in fp.getPeaks()]
    for y, x in fp.spans._p:
        d = [(x - p.getIx())**2 + (y - p.getIy())**2 for p in fp.getPeaks()]
        groups[d.index(min(d))].append((x, y))
    out = []
    for g, p in zip(groups, fp.getPeaks()):
        f = Footprint(SpanSet(g))
        f.addPeak(p.getFx(), p.getFy(), p.getPeakValue())
        out.append(f)
    return out


class SourceDeblendTask(Task):
    ConfigClass = SourceDeblendConfig
    _DefaultName = 'sourceDeblend'

    def __init__(self, schema, peakSchema=None, **kw):
        super().__init__(**kw)
        schema.addField('deblend_nChild', 0)
        self.schema = schema

    def run(self, exposure, sources):
        ans = _env.ask('lsst.deblend', exposure=exposure, sources=sources)
        if isinstance(ans, BaseException):
            raise ans
        for src in list(sources):
            fp = src.getFootprint()
            if len(fp.getPeaks()) < 2:
                src['deblend_nChild'] = 0
                continue
            src['deblend_nChild'] = len(fp.getPeaks())
            for f in split(fp):
                c = sources.addNew()
                c.setParent(src.getId())
                h = makeHeavyFootprint(f, exposure.maskedImage)
                c.setFootprint(h)
