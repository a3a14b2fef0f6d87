import numpy as np

import lsst.scarlet.lite as scl
from lsst.afw.table import SourceCatalog
from lsst.geom import Point2D
from lsst.pex.config import Config, Field
from lsst.pipe.base import Struct, Task

# harness hook: scarlet(mExposure, mergedSources) -> (model data, catalogue)
SCARLET_HOOK = None


class BlendData:
    """one blend: sources as (id, (y0, x0), band cube, (y, x))"""
    def __init__(self, sources, box):
        self.sources, self.box = sources, box

    def minimal_data_to_blend(self, model_psf, psf, bands, dtype=np.float32):
        obs = scl.Observation(np.asarray(psf), bands, self.box)
        return scl.Blend([
            scl.Source(scl.Image(np.array(d, dtype=dtype), bands, yx0), cen,
                       {"id": i})
            for i, yx0, d, cen in self.sources], obs)


class HierarchicalBlendData:
    def __init__(self, children):
        self.children = children


class ScarletModelData:
    def __init__(self, blends, metadata):
        self.blends, self.metadata = blends, metadata


class ScarletDeblendConfig(Config):
    maxFootprintArea = Field[int](default=100000)
    processSingles = Field[bool](default=True)


class DeconvolveConfig(Config):
    maxIter = Field[int](default=100)


class DeconvolveExposureTask(Task):
    ConfigClass = DeconvolveConfig
    _DefaultName = "deconvolve"

    def run(self, exposure, catalog, band=None):
        e = exposure.clone()
        return Struct(deconvolved=e)


class ScarletDeblendTask(Task):
    """the model of a source is a PSF with its peak pixel's flux in each band"""
    ConfigClass = ScarletDeblendConfig
    _DefaultName = "scarletDeblend"

    def __init__(self, schema=None, peakSchema=None, **kw):
        super().__init__(**kw)
        self.schema = self.objectSchema = schema

    def run(self, mExposure, mDeconvolved, mergedSources):
        if SCARLET_HOOK is not None:
            md, cat = SCARLET_HOOK(mExposure, mergedSources)
            return Struct(scarletModelData=md, deblendedCatalog=cat)
        bands = mExposure.bands
        bb = mExposure.getBBox()
        cen = Point2D(bb.getCenter())
        psfs = np.array([e.getPsf().computeKernelImage(cen).array
                         for e in mExposure.singles])
        cat = SourceCatalog(mergedSources.table)
        box = scl.Box((bb.height, bb.width), (bb.beginY, bb.beginX))
        blends = {}
        for r in mergedSources:
            par = cat.addNew(r.getId())
            par.setFootprint(r.getFootprint())
            par["deblend_nChild"] = len(r.getFootprint().getPeaks())
        for r in mergedSources:
            srcs = []
            for p in r.getFootprint().getPeaks():
                c = cat.addNew()
                c.setParent(r.getId())
                c["deblend_nChild"] = 0
                d = np.zeros((len(bands), 1, 1))
                for b, e in enumerate(mExposure.singles):
                    v = e.image.array[p.getIy() - bb.beginY, p.getIx() - bb.beginX]
                    d[b, 0, 0] = 0.9*v/psfs[b].max()
                srcs.append((c.getId(), (p.getIy(), p.getIx()), d,
                             (p.getIy(), p.getIx())))
            blends[r.getId()] = HierarchicalBlendData({r.getId(): BlendData(srcs, box)})
        md = ScarletModelData(blends, {"bands": bands, "psf": psfs,
                                       "model_psf": np.ones((1, 1))})
        return Struct(scarletModelData=md, deblendedCatalog=cat)
