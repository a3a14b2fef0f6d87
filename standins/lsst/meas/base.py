import numpy as np

import lsst.afw.image as afw_image
from lsst.afw.detection import makeHeavyFootprint
from lsst.geom import Point2D
from lsst.pex.config import Config, ConfigField, Field
from lsst.pipe.base import Task

# harness hook: measure(record, exposure) -> Point2D
MEASURE_HOOK = None


class NoiseReplacerConfig(Config):
    noiseSource = Field[str](default="measure")
    noiseOffset = Field[float](default=0.0)
    noiseSeedMultiplier = Field[int](default=1)


class NoiseReplacer:
    """footprints {id: (parent id, footprint)}; sources with parent zero (or an
    unknown parent) are replaced by noise"""
    def __init__(self, config, exposure, footprints, noiseImage=None,
                 exposureId=None, log=None):
        self.exposure = exposure
        mi = exposure.maskedImage
        for n in ("THISDET", "OTHERDET"):
            afw_image.Mask.addMaskPlane(n)
        self.this = afw_image.Mask.getPlaneBitMask("THISDET")
        self.other = afw_image.Mask.getPlaneBitMask("OTHERDET")
        self.footprints = footprints
        self.heavies = {
            i: fp if fp.isHeavy() else makeHeavyFootprint(fp, mi)
            for i, (_, fp) in footprints.items()}
        if noiseImage is None:
            r = np.random.RandomState(abs(int(config.noiseSeedMultiplier)) % 2**31)
            v = exposure.variance.array
            v = v[np.isfinite(v) & (v > 0)]
            noiseImage = afw_image.MaskedImageF(afw_image.ImageF(r.normal(
                scale=np.sqrt(np.median(v)) if v.size else 1.0,
                size=exposure.image.array.shape)))
            noiseImage.image._xy0 = exposure.getXY0()
        self.noise = {i: makeHeavyFootprint(footprints[i][1], noiseImage)
                      for i in footprints if self._top(i) == i}
        for i, h in self.noise.items():
            h.insert(exposure.image)
            self._mask(i, self.other, True)

    def _top(self, i):
        while self.footprints[i][0] in self.footprints:
            i = self.footprints[i][0]
        return i

    def _mask(self, i, bit, on):
        s = self.footprints[i][1].getSpans()
        xy0 = self.exposure.getXY0()
        m = self.exposure.mask.array
        y, x = s.y - xy0.y, s.x - xy0.x
        ok = (y >= 0) & (x >= 0) & (y < m.shape[0]) & (x < m.shape[1])
        if on:
            m[y[ok], x[ok]] |= bit
        else:
            m[y[ok], x[ok]] &= ~bit

    def insertSource(self, i):
        self.heavies[i].insert(self.exposure.image)
        self._mask(i, self.this, True)
        self._mask(i, self.other, False)

    def removeSource(self, i):
        self.noise[self._top(i)].insert(self.exposure.image)
        self._mask(i, self.this, False)
        self._mask(i, self.other, True)

    def end(self):
        for i in self.noise:
            self.heavies[i].insert(self.exposure.image)
        m = self.exposure.mask.array
        m &= ~(self.this | self.other)


class _Plugin:
    def __init__(self):
        self.__dict__["values"] = {}

    def __setattr__(self, n, v):
        self.values[n] = v


class _Plugins:
    def __init__(self):
        self.names = []
        self._p = {}

    def __getitem__(self, n):
        return self._p.setdefault(n, _Plugin())


class _PluginsField(Field):
    def initial(self, obj):
        return _Plugins()

    def todict(self, obj):
        return {n: dict(self.__get__(obj)[n].values)
                for n in self.__get__(obj).names}


class SlotsConfig(Config):
    centroid = Field[str](default="base_SdssCentroid", optional=True)
    shape = Field[str](default="base_SdssShape", optional=True)
    apFlux = Field[str](default="base_CircularApertureFlux_12_0", optional=True)
    modelFlux = Field[str](default="base_GaussianFlux", optional=True)
    psfFlux = Field[str](default="base_PsfFlux", optional=True)
    gaussianFlux = Field[str](default="base_GaussianFlux", optional=True)
    calibFlux = Field[str](default="base_CircularApertureFlux_12_0", optional=True)


class SingleFrameMeasurementConfig(Config):
    plugins = _PluginsField()
    slots = ConfigField(dtype=SlotsConfig)
    noiseReplacer = ConfigField(dtype=NoiseReplacerConfig)
    doReplaceWithNoise = Field[bool](default=True)


class SingleFrameMeasurementTask(Task):
    """a Gaussian-weighted centroid, and the sky position there"""
    ConfigClass = SingleFrameMeasurementConfig
    _DefaultName = "measurement"

    def __init__(self, schema=None, algMetadata=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def callMeasure(self, record, exposure, **kw):
        if MEASURE_HOOK is not None:
            cen = MEASURE_HOOK(record, exposure)
        else:
            cen = self._centroid(record, exposure)
        record.setCentroid(cen)
        record.setCoord(exposure.getWcs().pixelToSky(cen))

    def _centroid(self, record, exposure):
        p = record.getFootprint().getPeaks()[0]
        im, xy0 = exposure.image.array, exposure.getXY0()
        px, py = p.getIx() - xy0.x, p.getIy() - xy0.y
        y0, y1 = max(py - 6, 0), min(py + 7, im.shape[0])
        x0, x1 = max(px - 6, 0), min(px + 7, im.shape[1])
        y, x = np.mgrid[y0:y1, x0:x1]
        d = np.array(im[y0:y1, x0:x1], dtype=float)
        cy, cx = float(py), float(px)
        for _ in range(20):
            w = np.exp(-0.5*((y - cy)**2 + (x - cx)**2)/2.0**2)*d
            s = w.sum()
            if not s > 0:
                return Point2D(p.getIx(), p.getIy())
            ny, nx = cy + 2*((w*(y - cy)).sum()/s), cx + 2*((w*(x - cx)).sum()/s)
            if not (abs(ny - py) < 2.5 and abs(nx - px) < 2.5):
                return Point2D(p.getIx(), p.getIy())
            cy, cx = ny, nx
        return Point2D(cx + xy0.x, cy + xy0.y)

    def run(self, measCat, exposure, **kw):
        for r in measCat:
            self.callMeasure(r, exposure)
