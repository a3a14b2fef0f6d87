import copy

import numpy as np
from scipy import ndimage, signal

import lsst.afw.image as afw_image
from lsst.afw.detection import Footprint
from lsst.afw.geom import SpanSet
from lsst.afw.table import SourceCatalog
from lsst.pex.config import Config, ConfigField, Field, ListField
from lsst.pipe.base import Struct, Task

# harness hook: detection(table, exposure, config) -> SourceCatalog
DETECT_HOOK = None
# harness hook: background(exposure, config) -> float
BACK_HOOK = None


class KernelPsf:
    def __init__(self, kernel, averagePosition=None):
        self._k = kernel

    def computeKernelImage(self, pos=None, *a):
        return afw_image.ImageD(self._k.getImage().array.copy())

    def computeImage(self, pos=None, *a):
        return self.computeKernelImage(pos)

    def clone(self):
        return copy.deepcopy(self)


class SubtractBackgroundConfig(Config):
    ignoredPixelMask = ListField[str](
        default=["BAD", "EDGE", "DETECTED", "DETECTED_NEGATIVE", "NO_DATA"])
    binSize = Field[int](default=128)
    useApprox = Field[bool](default=True)


class SourceDetectionConfig(Config):
    minPixels = Field[int](default=1)
    isotropicGrow = Field[bool](default=True)
    combinedGrow = Field[bool](default=True)
    nSigmaToGrow = Field[float](default=2.4)
    returnOriginalFootprints = Field[bool](default=False)
    thresholdValue = Field[float](default=5.0)
    includeThresholdMultiplier = Field[float](default=1.0)
    thresholdType = Field[str](default="pixel_stdev")
    thresholdPolarity = Field[str](default="positive")
    adjustBackground = Field[float](default=0.0)
    reEstimateBackground = Field[bool](default=True)
    background = ConfigField(dtype=SubtractBackgroundConfig)
    tempLocalBackground = ConfigField(dtype=SubtractBackgroundConfig)
    doTempLocalBackground = Field[bool](default=True)
    tempWideBackground = ConfigField(dtype=SubtractBackgroundConfig)
    doTempWideBackground = Field[bool](default=False)
    nPeaksMaxSimple = Field[int](default=1)
    nSigmaForKernel = Field[float](default=7.0)
    statsMask = ListField[str](default=["BAD", "SAT", "EDGE", "NO_DATA"])
    excludeMaskPlanes = ListField[str](default=[])
    doApplyFlatBackgroundRatio = Field[bool](default=False)


def _smooth(image, psf):
    k = np.array(psf, dtype=float)
    k = k/k.sum()
    return signal.fftconvolve(image, k[::-1, ::-1], mode="same")


class SourceDetectionTask(Task):
    """threshold on the PSF-smoothed image, 8-connected, grown footprints"""
    ConfigClass = SourceDetectionConfig
    _DefaultName = "sourceDetection"

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)

    def run(self, table, exposure, **kw):
        c = self.config
        if DETECT_HOOK is not None:
            return Struct(sources=DETECT_HOOK(table, exposure, c))
        im = np.array(exposure.image.array, dtype=float)
        mask = exposure.mask.array
        sm = _smooth(im, exposure.getPsf().computeKernelImage(
            exposure.getBBox().getCenter()).array)
        bad = np.zeros(mask.shape, dtype=bool)
        if c.excludeMaskPlanes:
            bad = (mask & afw_image.Mask.getPlaneBitMask(c.excludeMaskPlanes)) != 0
        use = np.isfinite(sm)
        if c.statsMask:
            use &= (mask & afw_image.Mask.getPlaneBitMask(c.statsMask)) == 0
        vals = sm[use]
        for _ in range(10):
            if vals.size == 0:
                break
            m, s = np.median(vals), vals.std()
            vals = vals[np.abs(vals - m) <= 3*s]
        std = vals.std() if vals.size else 0.0
        thr = c.thresholdValue*c.includeThresholdMultiplier*max(std, 1e-30)
        det = (sm > thr) & ~bad
        lab, n = ndimage.label(det, structure=np.ones((3, 3)))
        xy0 = exposure.getXY0()
        grown = np.zeros_like(det)
        cat = SourceCatalog(table)
        mx = ndimage.maximum_filter(sm, size=3)
        glab, gn = ndimage.label(
            ndimage.binary_dilation(det, structure=np.ones((3, 3)), iterations=2)
            if n else det, structure=np.ones((3, 3)))
        for i in range(1, gn + 1):
            m = glab == i
            py, px = np.nonzero(m & det & (sm >= mx))
            if py.size == 0 or (m & det).sum() < c.minPixels:
                continue
            y, x = np.nonzero(m)
            fp = Footprint(SpanSet(y + xy0.y, x + xy0.x))
            for k in np.argsort(-sm[py, px]):
                fp.addPeak(px[k] + xy0.x, py[k] + xy0.y, sm[py[k], px[k]])
            cat.addNew().setFootprint(fp)
            grown |= m
        exposure.mask.array[grown] |= afw_image.Mask.getPlaneBitMask("DETECTED")
        return Struct(sources=cat)


class SubtractBackgroundTask(Task):
    """subtracts the clipped mean of the pixels that are not ignored"""
    ConfigClass = SubtractBackgroundConfig
    _DefaultName = "subtractBackground"

    def run(self, exposure, background=None, **kw):
        if BACK_HOOK is not None:
            mean = BACK_HOOK(exposure, self.config)
        else:
            bits = afw_image.Mask.getPlaneBitMask(self.config.ignoredPixelMask)
            v = exposure.image.array[(exposure.mask.array & bits) == 0]
            v = np.array(v[np.isfinite(v)], dtype=float)
            for _ in range(3):
                if v.size:
                    v = v[np.abs(v - v.mean()) <= 3*v.std() + 1e-30]
            mean = float(v.mean()) if v.size else 0.0
        exposure.image.array[:, :] -= mean
        exposure.getMetadata()["BGMEAN"] = mean
        return Struct(background=mean)
