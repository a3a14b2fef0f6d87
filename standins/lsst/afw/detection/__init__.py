import numpy as np

from lsst.afw.geom import SpanSet
from lsst.geom import Point2D, Point2I
from lsst.afw.image import Image, MaskedImage


class PeakRecord:
    def __init__(self, fx, fy, value):
        self._f, self._v = (float(fx), float(fy)), float(value)

    def getFx(self):
        return self._f[0]

    def getFy(self):
        return self._f[1]

    def getIx(self):
        return int(self._f[0])

    def getIy(self):
        return int(self._f[1])

    def getF(self):
        return Point2D(*self._f)

    def getI(self):
        return Point2I(self.getIx(), self.getIy())

    getCentroid = getF

    def getPeakValue(self):
        return self._v


class Footprint:
    def __init__(self, spans=None):
        self._spans = spans if spans is not None else SpanSet()
        self._peaks = []

    def addPeak(self, fx, fy, value):
        self._peaks.append(PeakRecord(fx, fy, value))

    def getPeaks(self):
        return self._peaks

    peaks = property(getPeaks)

    def getSpans(self):
        return self._spans

    spans = property(getSpans)

    def getBBox(self):
        return self._spans.getBBox()

    def getArea(self):
        return self._spans.getArea()

    def isHeavy(self):
        return False


class HeavyFootprint(Footprint):
    def __init__(self, fp, maskedimage):
        super().__init__(fp.getSpans())
        self._peaks = list(fp.getPeaks())
        im = maskedimage.image
        xy0, shape = im.getXY0(), im.array.shape
        s = self._spans
        y, x = s.y - xy0.y, s.x - xy0.x
        ok = (y >= 0) & (x >= 0) & (y < shape[0]) & (x < shape[1])
        self._im = np.zeros(s.y.size, dtype=im.array.dtype)
        self._im[ok] = im.array[y[ok], x[ok]]

    def isHeavy(self):
        return True

    def getImageArray(self):
        return self._im

    def _apply(self, image, op):
        xy0, shape = image.getXY0(), image.array.shape
        s = self._spans
        y, x = s.y - xy0.y, s.x - xy0.x
        ok = (y >= 0) & (x >= 0) & (y < shape[0]) & (x < shape[1])
        a = image.array
        y, x, v = y[ok], x[ok], self._im[ok]
        a[y, x] = v if op == "set" else a[y, x] + v if op == "add" else a[y, x] - v

    def insert(self, image):
        self._apply(getattr(image, "image", image), "set")

    def addTo(self, image):
        self._apply(image, "add")

    def subtractFrom(self, image):
        self._apply(image, "sub")

    def extractImage(self, fill=0, bbox=None):
        b = bbox if bbox is not None else self.getBBox()
        im = Image._view(np.full((b.height, b.width), fill, dtype=self._im.dtype),
                         b.getMin())
        self._apply(im, "set")
        return im


HeavyFootprintF = HeavyFootprint


def makeHeavyFootprint(fp, maskedimage, ctrl=None):
    return HeavyFootprint(fp, maskedimage)


_unused = MaskedImage
