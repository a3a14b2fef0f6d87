import numpy as np

from lsst.geom import Box2I, Extent2I, Point2I
from lsst.pex.exceptions import InvalidParameterError, LengthError


def _box(array, xy0):
    return Box2I(xy0, Extent2I(array.shape[1], array.shape[0]))


class Image:
    _dtype = None

    def __init__(self, *args, **kw):
        dtype = self._dtype or kw.pop("dtype", None)
        kw.pop("dtype", None)
        xy0 = kw.pop("xy0", Point2I(0, 0))
        deep = kw.pop("deep", True)
        if "array" in kw:
            args = (kw.pop("array"),)
        if "width" in kw:
            args = (kw.pop("width"), kw.pop("height"))
        if len(args) == 2 and isinstance(args[1], bool):
            deep = args[1]
            args = args[:1]
        if kw:
            raise TypeError("unexpected keyword %s" % list(kw))
        if len(args) == 2:
            a = np.zeros((args[1], args[0]), dtype=dtype or np.float32)
        elif isinstance(args[0], Box2I):
            b = args[0]
            a = np.zeros((b.height, b.width), dtype=dtype or np.float32)
            xy0 = b.getMin()
        elif isinstance(args[0], Image):
            xy0 = args[0].getXY0()
            a = args[0].array
            a = a.astype(dtype or a.dtype, copy=deep)
        else:
            a = np.array(args[0], dtype=dtype) if deep else args[0]
        self._array, self._xy0 = a, Point2I(xy0)

    @classmethod
    def _view(cls, array, xy0):
        o = cls.__new__(cls)
        o._array, o._xy0 = array, Point2I(xy0)
        return o

    @property
    def array(self):
        return self._array

    @array.setter
    def array(self, v):
        self._array[:, :] = v

    def getArray(self):
        return self._array

    def getBBox(self, origin=None):
        return _box(self._array, self._xy0)

    def getXY0(self):
        return self._xy0

    def setXY0(self, *p):
        self._xy0 = Point2I(*p)

    def getX0(self):
        return self._xy0.x

    def getY0(self):
        return self._xy0.y

    x0, y0, xy0 = property(getX0), property(getY0), property(getXY0)
    dtype = property(lambda s: s._array.dtype)
    Factory = property(lambda s: type(s))

    def set(self, v):
        self._array[:, :] = v

    def subset(self, box, origin=None):
        return self[box]

    def assign(self, o, bbox=None, origin=None):
        (self if bbox is None else self[bbox])._array[:, :] = o.array

    def convertF(self):
        return ImageF(self, deep=True)

    def convertD(self):
        return ImageD(self, deep=True)

    def _inplace(self, o, f):
        f(self._array, o.array if isinstance(o, Image) else o, out=self._array,
          casting="unsafe")
        return self

    def __iadd__(self, o):
        return self._inplace(o, np.add)

    def __isub__(self, o):
        return self._inplace(o, np.subtract)

    def __imul__(self, o):
        return self._inplace(o, np.multiply)

    def __itruediv__(self, o):
        return self._inplace(o, np.divide)

    def __ior__(self, o):
        return self._inplace(o, np.bitwise_or)

    def __iand__(self, o):
        return self._inplace(o, np.bitwise_and)

    def __setitem__(self, k, v):
        v = v.array if isinstance(v, Image) else v
        if isinstance(k, Box2I):
            self._array[self._local(k)] = v
        elif isinstance(k, (slice, type(...))) or not hasattr(k, "x"):
            self._array[k] = v
        else:
            self[k]  # raises when outside of the image
            self._array[k.y - self._xy0.y, k.x - self._xy0.x] = v

    def getWidth(self):
        return self._array.shape[1]

    def getHeight(self):
        return self._array.shape[0]

    width, height = property(getWidth), property(getHeight)

    def getDimensions(self):
        return Extent2I(self.getWidth(), self.getHeight())

    def clone(self):
        return type(self)._view(self._array.copy(), self._xy0)

    def _local(self, b):
        if not self.getBBox().contains(b):
            raise LengthError("box %s is not within %s" % (b, self.getBBox()))
        y0, x0 = b.beginY - self._xy0.y, b.beginX - self._xy0.x
        if b.isEmpty():
            y0 = x0 = 0
        return slice(y0, y0 + b.height), slice(x0, x0 + b.width)

    def __getitem__(self, k):
        if isinstance(k, Box2I):
            return type(self)._view(self._array[self._local(k)], k.getMin())
        y, x = k.y - self._xy0.y, k.x - self._xy0.x
        if not (0 <= y < self._array.shape[0] and 0 <= x < self._array.shape[1]):
            raise LengthError("%s is outside of %s" % (k, self.getBBox()))
        return self._array[y, x]


class ImageF(Image):
    _dtype = np.float32


class ImageD(Image):
    _dtype = np.float64


class ImageI(Image):
    _dtype = np.int32


class Mask(Image):
    _dtype = np.int32
    _base = ["BAD", "SAT", "INTRP", "CR", "EDGE", "DETECTED", "DETECTED_NEGATIVE",
             "SUSPECT", "NO_DATA"]
    _planes = {n: i for i, n in enumerate(_base)}

    @staticmethod
    def addMaskPlane(name):
        p = Mask._planes
        if name not in p:
            free = [i for i in range(31) if i not in p.values()]
            if not free:
                raise InvalidParameterError("no mask planes left")
            p[name] = free[0]
        return p[name]

    @staticmethod
    def getPlaneBitMask(names):
        if isinstance(names, str):
            names = [names]
        v = 0
        for n in names:
            if n not in Mask._planes:
                raise InvalidParameterError("no mask plane %s" % n)
            v |= 1 << Mask._planes[n]
        return v

    @staticmethod
    def getMaskPlane(name):
        if name not in Mask._planes:
            raise InvalidParameterError("no mask plane %s" % name)
        return Mask._planes[name]

    @staticmethod
    def getMaskPlaneDict():
        return dict(Mask._planes)

    @staticmethod
    def getNumPlanesUsed():
        return len(Mask._planes)

    def clearMaskPlane(self, plane):
        self._array &= ~np.int32(1 << plane)

    def clearAllMaskPlanes(self):
        self._array[:, :] = 0


MaskX = Mask


class MaskedImage:
    _image = Image

    def __init__(self, *args, **kw):
        kw.pop("dtype", None)
        names = ("image", "mask", "variance")
        kw.update(zip(names, args))
        if isinstance(kw.get("image"), (int, np.integer)):
            w, h = args
            kw = {"image": (self._image if self._image is not Image else ImageF)(w, h)}
        im = kw["image"]
        if self._image is not Image and not isinstance(im, self._image):
            im = self._image(im)
        shape, xy0 = im.array.shape, im.getXY0()
        self.image = im
        self.mask = kw.get("mask") or Mask._view(np.zeros(shape, dtype=np.int32), xy0)
        self.variance = kw.get("variance") or ImageF._view(
            np.zeros(shape, dtype=np.float32), xy0)

    def getBBox(self):
        return self.image.getBBox()

    def getXY0(self):
        return self.image.getXY0()

    def getImage(self):
        return self.image

    def getMask(self):
        return self.mask

    def getVariance(self):
        return self.variance

    def getWidth(self):
        return self.image.getWidth()

    def getHeight(self):
        return self.image.getHeight()

    def getDimensions(self):
        return self.image.getDimensions()

    def getArrays(self):
        return self.image.array, self.mask.array, self.variance.array

    def setImage(self, v):
        self.image = v

    def setMask(self, v):
        self.mask = v

    def setVariance(self, v):
        self.variance = v

    def clone(self):
        return type(self)(self.image.clone(), self.mask.clone(), self.variance.clone())

    def assign(self, o, bbox=None, origin=None):
        self.image.assign(o.image, bbox)
        self.mask.assign(o.mask, bbox)
        self.variance.assign(o.variance, bbox)

    def __isub__(self, o):
        self.image -= o.image if isinstance(o, MaskedImage) else o
        if isinstance(o, MaskedImage):
            self.mask |= o.mask
            self.variance += o.variance
        return self

    def __iadd__(self, o):
        self.image += o.image if isinstance(o, MaskedImage) else o
        if isinstance(o, MaskedImage):
            self.mask |= o.mask
            self.variance += o.variance
        return self

    def subset(self, box, origin=None):
        return self[box]

    def __getitem__(self, b):
        return type(self)(self.image[b], self.mask[b], self.variance[b])


class MaskedImageF(MaskedImage):
    _image = ImageF


class MaskedImageD(MaskedImage):
    _image = ImageD


class FilterLabel:
    def __init__(self, band=None, physical=None):
        self.bandLabel, self.physicalLabel = band, physical

    def __eq__(self, o):
        return isinstance(o, FilterLabel) and o.bandLabel == self.bandLabel


class Exposure:
    _masked, _image = MaskedImage, Image

    def __init__(self, *args, **kw):
        deep = kw.pop("deep", False)
        kw.pop("dtype", None)
        if "width" in kw:
            args = (kw.pop("width"), kw.pop("height"))
        if len(args) == 2 and isinstance(args[1], bool):
            deep = args[1]
            args = args[:1]
        if kw:
            raise TypeError("unexpected keyword %s" % list(kw))
        self._info = {"wcs": None, "psf": None, "filter": None, "detector": None,
                      "metadata": {}}
        if len(args) == 2:
            mi = self._masked(*args)
        elif isinstance(args[0], Exposure):
            e = args[0]
            self._info = dict(e._info, metadata=dict(e._info["metadata"]))
            if deep:
                mi = self._masked(self._image(e.image), e.mask.clone(),
                                  e.variance.clone())
            else:
                mi = e.maskedImage
        elif isinstance(args[0], Box2I):
            mi = self._masked(self._image(args[0]))
        else:
            mi = args[0]
        self._mi = mi

    def setMaskedImage(self, v):
        self._mi = v

    def setImage(self, v):
        self._mi.image = v

    def setMask(self, v):
        self._mi.mask = v

    def setVariance(self, v):
        self._mi.variance = v

    image = property(lambda s: s._mi.image, setImage)
    mask = property(lambda s: s._mi.mask, setMask)
    variance = property(lambda s: s._mi.variance, setVariance)
    maskedImage = property(lambda s: s._mi, setMaskedImage)
    width = property(lambda s: s.getWidth())
    height = property(lambda s: s.getHeight())

    def getMaskedImage(self):
        return self._mi

    def getImage(self):
        return self._mi.image

    def getMask(self):
        return self._mi.mask

    def getVariance(self):
        return self._mi.variance

    def getBBox(self):
        return self._mi.getBBox()

    def getXY0(self):
        return self._mi.getXY0()

    def getWidth(self):
        return self.image.getWidth()

    def getHeight(self):
        return self.image.getHeight()

    def getDimensions(self):
        return self.image.getDimensions()

    def getWcs(self):
        return self._info["wcs"]

    def setWcs(self, v):
        self._info["wcs"] = v

    def getPsf(self):
        return self._info["psf"]

    def setPsf(self, v):
        self._info["psf"] = v

    def getFilter(self):
        return self._info["filter"]

    def setFilter(self, v):
        self._info["filter"] = v

    def getDetector(self):
        return self._info["detector"]

    def setDetector(self, v):
        self._info["detector"] = v

    def getMetadata(self):
        return self._info["metadata"]

    def setMetadata(self, v):
        self._info["metadata"] = v

    def getInfo(self):
        return self

    info = property(getInfo)
    metadata = property(getMetadata, setMetadata)
    wcs, psf = property(getWcs, setWcs), property(getPsf, setPsf)
    filter = property(getFilter, setFilter)
    detector = property(getDetector, setDetector)

    def getX0(self):
        return self.getXY0().x

    def getY0(self):
        return self.getXY0().y

    def setXY0(self, p):
        for i in (self.image, self.mask, self.variance):
            i.setXY0(p)

    def subset(self, box, origin=None):
        return self[box]

    def clone(self):
        return type(self)(self, deep=True)

    def __getitem__(self, b):
        o = type(self).__new__(type(self))
        o._mi = self._mi[b]
        o._info = dict(self._info, metadata=dict(self._info["metadata"]))
        return o


class ExposureF(Exposure):
    _masked, _image = MaskedImageF, ImageF


class ExposureD(Exposure):
    _masked, _image = MaskedImageD, ImageD


class MultibandImage:
    def __init__(self, bands, array, bbox=None):
        self.bands = tuple(bands)
        self.array = array
        self.bbox = bbox if bbox is not None else _box(array[0], Point2I(0, 0))
        self.singles = [Image._view(a, self.bbox.getMin()) for a in array]

    def __getitem__(self, b):
        return self.singles[self.bands.index(b) if isinstance(b, str) else b]

    def __len__(self):
        return len(self.bands)

    def __iter__(self):
        return iter(self.singles)

    def getBBox(self):
        return self.bbox


class MultibandExposure:
    def __init__(self, bands, image, mask, variance, xy0, psfs=None):
        self.bands = tuple(bands)
        box = _box(image[0], xy0)
        self.image = MultibandImage(bands, image, box)
        self.mask = MultibandImage(bands, mask, box)
        self.variance = MultibandImage(bands, variance, box)
        self._bbox = box
        f = image.dtype == np.float32
        mcls, ecls = (MaskedImageF, ExposureF) if f else (MaskedImageD, ExposureD)
        icls = ImageF if f else ImageD
        self.singles = [
            ecls(mcls(icls._view(i, xy0), Mask._view(m, xy0), ImageF._view(v, xy0)))
            for i, m, v in zip(image, mask, variance)]
        for s, p in zip(self.singles, psfs or []):
            s.setPsf(p)

    @staticmethod
    def fromExposures(bands, singles):
        box = singles[0].getBBox()
        if any(not s.getBBox() == box for s in singles):
            raise ValueError("all images must have the same bounding box")
        dt = singles[0].image.array.dtype
        return MultibandExposure(
            bands,
            np.array([s.image.array for s in singles], dtype=dt),
            np.array([s.mask.array for s in singles], dtype=np.int32),
            np.array([s.variance.array for s in singles], dtype=np.float32),
            box.getMin(), psfs=[s.getPsf() for s in singles])

    def getBBox(self):
        return self._bbox

    def getXY0(self):
        return self._bbox.getMin()

    def __len__(self):
        return len(self.bands)

    def __iter__(self):
        return iter(self.singles)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.bands:
                raise IndexError("no band %s" % k)
            return self.singles[self.bands.index(k)]
        if isinstance(k, (int, np.integer)):
            return self.singles[k]
        # a band selection, a box or both, as views
        sel, box = k if isinstance(k, tuple) else (
            (slice(None), k) if isinstance(k, Box2I) else (k, None))
        if isinstance(sel, str):
            return self[sel] if box is None else self[sel][box]
        if isinstance(sel, slice):
            i = [self.bands.index(b) if isinstance(b, str) else b
                 for b in (sel.start, sel.stop)]
            bands = self.bands[i[0]:i[1]:sel.step]
        else:
            bands = tuple(sel)
        o = type(self).__new__(type(self))
        o.bands = tuple(bands)
        o.singles = [self[b] if box is None else self[b][box] for b in bands]
        o._bbox = self._bbox if box is None else box
        for n in ("image", "mask", "variance"):
            m = MultibandImage.__new__(MultibandImage)
            m.bands, m.bbox = o.bands, o._bbox
            m.singles = [getattr(s, n) for s in o.singles]
            m.array = np.array([s.array for s in m.singles])
            setattr(o, n, m)
        return o

    def getPsf(self):
        return [s.getPsf() for s in self.singles]

    def getWidth(self):
        return self._bbox.width

    def getHeight(self):
        return self._bbox.height

    def clone(self, deep=True):
        """copies the pixels; psf, wcs and filter are not carried along"""
        c = (lambda a: a.copy()) if deep else (lambda a: a)
        return MultibandExposure(
            self.bands, c(self.image.array), c(self.mask.array),
            c(self.variance.array), self._bbox.getMin())
