import numpy as np

from lsst.afw.detection import Footprint
from lsst.afw.geom import SpanSet


def source_footprint(source, blend):
    """the pixels where the convolved model of a source is not zero"""
    py, px = blend.observation.psfs.shape[1:]
    box = source.bbox.grow((py//2, px//2)) & blend.observation.bbox
    m = blend.observation.convolve(source.get_model().project(bbox=box))
    y, x = np.nonzero(np.max(m.data, axis=0))
    fp = Footprint(SpanSet(y + m.yx0[0], x + m.yx0[1]))
    fp.addPeak(source.center[1], source.center[0], np.max(m.data))
    return fp


def updateCatalogFootprints(modelData, catalog, band, imageForRedistribution=None,
                            removeScarletData=True, updateFluxColumns=True):
    md = modelData.metadata
    if band not in md["bands"]:
        raise ValueError("no band %s" % band)
    for b in modelData.blends.values():
        for d in b.children.values():
            blend = d.minimal_data_to_blend(
                model_psf=md["model_psf"][None], psf=md["psf"], bands=md["bands"])
            for s in blend.sources:
                catalog.find(s.metadata["id"]).setFootprint(source_footprint(s, blend))
