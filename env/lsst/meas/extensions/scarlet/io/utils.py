import numpy as np
from .....afw.detection import Footprint
from .....afw.geom import SpanSet


def model_footprint(source, blend):
    """pixels with any flux of the convolved model, within the image"""
    py, px = blend.observation.psfs.shape[1:]
    box = source.bbox.grow((py//2, px//2)) & blend.observation.bbox
    m = blend.observation.convolve(source.get_model().project(bbox=box))
    ys, xs = np.where(np.max(m.data, axis=0) != 0)
    f = Footprint(SpanSet(zip(xs + m.yx0[1], ys + m.yx0[0])))
    f.addPeak(source.center[1], source.center[0], float(np.max(m.data)))
    return f


def updateCatalogFootprints(modelData, catalog, band, imageForRedistribution=None,
                            removeScarletData=True, updateFluxColumns=True):
    md = modelData.metadata
    for hb in modelData.blends.values():
        for bd in hb.children.values():
            blend = bd.minimal_data_to_blend(
                model_psf=md['model_psf'][None], psf=md['psf'], bands=md['bands'])
            for s in blend.sources:
                catalog.find(s.metadata['id']).setFootprint(model_footprint(s, blend))
