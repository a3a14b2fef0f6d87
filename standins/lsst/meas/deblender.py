import numpy as np

from lsst.afw.detection import Footprint
from lsst.afw.geom import SpanSet
from lsst.pex.config import Config, Field
from lsst.pipe.base import Task

# harness hook: deblend(exposure, sources)
DEBLEND_HOOK = None


class SourceDeblendConfig(Config):
    maxFootprintArea = Field[int](default=1000000)
    maxNumberOfPeaks = Field[int](default=0)


class SourceDeblendTask(Task):
    """children are the pixels nearest to each peak"""
    ConfigClass = SourceDeblendConfig
    _DefaultName = "sourceDeblend"

    def __init__(self, schema=None, peakSchema=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def run(self, exposure, sources):
        if DEBLEND_HOOK is not None:
            return DEBLEND_HOOK(exposure, sources)
        for r in list(sources):
            fp = r.getFootprint()
            peaks = fp.getPeaks()
            if len(peaks) < 2:
                r["deblend_nChild"] = 0
                continue
            r["deblend_nChild"] = len(peaks)
            s = fp.getSpans()
            d = np.array([(s.x - p.getIx())**2 + (s.y - p.getIy())**2 for p in peaks])
            near = d.argmin(axis=0)
            for k, p in enumerate(peaks):
                c = sources.addNew()
                c.setParent(r.getId())
                c["deblend_nChild"] = 0
                f = Footprint(SpanSet(s.y[near == k], s.x[near == k]))
                f.addPeak(p.getFx(), p.getFy(), p.getPeakValue())
                c.setFootprint(f)
