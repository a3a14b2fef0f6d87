import numpy as np


class _Pair:
    """shared by points and extents"""
    _int = False

    def __init__(self, *args, **kw):
        if kw:
            args = (kw["x"], kw["y"])
        if len(args) == 1:
            a = args[0]
            args = (a.x, a.y) if isinstance(a, _Pair) else tuple(a)
        x, y = args
        if self._int:
            if isinstance(args[0], (float, np.floating)) or isinstance(
                    args[1], (float, np.floating)):
                x, y = np.floor(x + 0.5), np.floor(y + 0.5)
            x, y = int(x), int(y)
        else:
            x, y = float(x), float(y)
        self.x, self.y = x, y

    def getX(self):
        return self.x

    def getY(self):
        return self.y

    def __iter__(self):
        return iter((self.x, self.y))

    def __getitem__(self, i):
        return (self.x, self.y)[i]

    def __len__(self):
        return 2

    def __eq__(self, o):
        return type(self) is type(o) and (self.x, self.y) == (o.x, o.y)

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return "%s(%r, %r)" % (type(self).__name__, self.x, self.y)


class _Ext(_Pair):
    def __add__(self, o):
        if isinstance(o, (Point2D, Point2I)):
            return o + self
        return _ext(self.x + o.x, self.y + o.y, self._int and o._int)

    def __sub__(self, o):
        return _ext(self.x - o.x, self.y - o.y, self._int and o._int)

    def __neg__(self):
        return type(self)(-self.x, -self.y)

    def __mul__(self, f):
        return _ext(self.x*f, self.y*f, self._int and isinstance(f, int))

    __rmul__ = __mul__

    def __truediv__(self, f):
        return Extent2D(self.x/f, self.y/f)

    def getWidth(self):
        return self.x

    def getHeight(self):
        return self.y

    width = property(getWidth)
    height = property(getHeight)

    def computeNorm(self):
        return float(np.hypot(self.x, self.y))


def _ext(x, y, integer):
    return (Extent2I if integer else Extent2D)(x, y)


class Extent2D(_Ext):
    pass


class Extent2I(_Ext):
    _int = True


class Point2D(_Pair):
    def __sub__(self, o):
        if isinstance(o, (Point2D, Point2I)):
            return Extent2D(self.x - o.x, self.y - o.y)
        return Point2D(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return Point2D(self.x + o.x, self.y + o.y)


class Point2I(_Pair):
    _int = True

    def __sub__(self, o):
        f = not o._int
        if isinstance(o, (Point2D, Point2I)):
            return (Extent2D if f else Extent2I)(self.x - o.x, self.y - o.y)
        return (Point2D if f else Point2I)(self.x - o.x, self.y - o.y)

    def __add__(self, o):
        return (Point2I if o._int else Point2D)(self.x + o.x, self.y + o.y)


class _Interval:
    def __init__(self, b, e):
        self.begin, self.end, self.min, self.max, self.size = b, e, b, e - 1, e - b


class Box2I:
    def __init__(self, *args, **kw):
        if "minimum" in kw or "corner" in kw:
            args = (kw.get("minimum", kw.get("corner")),
                    kw.get("maximum", kw.get("dimensions")))
        if not args:
            self._set(0, 0, 0, 0)
        elif len(args) == 1:
            b = args[0]
            self._set(b.beginX, b.beginY, b.width, b.height)
        else:
            p, q = args
            if isinstance(q, Extent2I):
                self._set(p.x, p.y, q.x, q.y)
            else:
                self._set(p.x, p.y, q.x - p.x + 1, q.y - p.y + 1)

    def _set(self, x0, y0, w, h):
        if w <= 0 or h <= 0:
            x0 = y0 = w = h = 0
        self.beginX, self.beginY, self.width, self.height = x0, y0, w, h

    endX = property(lambda s: s.beginX + s.width)
    endY = property(lambda s: s.beginY + s.height)
    minX = property(lambda s: s.beginX)
    minY = property(lambda s: s.beginY)
    maxX = property(lambda s: s.endX - 1)
    maxY = property(lambda s: s.endY - 1)

    def getBeginX(self):
        return self.beginX

    def getBeginY(self):
        return self.beginY

    def getEndX(self):
        return self.endX

    def getEndY(self):
        return self.endY

    def getMinX(self):
        return self.minX

    def getMinY(self):
        return self.minY

    def getMaxX(self):
        return self.maxX

    def getMaxY(self):
        return self.maxY

    def getWidth(self):
        return self.width

    def getHeight(self):
        return self.height

    def getMin(self):
        return Point2I(self.beginX, self.beginY)

    def getMax(self):
        return Point2I(self.maxX, self.maxY)

    def getBegin(self):
        return self.getMin()

    def getDimensions(self):
        return Extent2I(self.width, self.height)

    def getArea(self):
        return self.width*self.height

    def isEmpty(self):
        return self.width == 0

    def getCenter(self):
        return Point2D(self.beginX + (self.width - 1)/2,
                       self.beginY + (self.height - 1)/2)

    def grow(self, n):
        nx, ny = (n.x, n.y) if isinstance(n, _Pair) else (n, n)
        if not self.isEmpty():
            self._set(self.beginX - nx, self.beginY - ny,
                      self.width + 2*nx, self.height + 2*ny)

    def clip(self, o):
        x0, y0 = max(self.beginX, o.beginX), max(self.beginY, o.beginY)
        x1, y1 = min(self.endX, o.endX), min(self.endY, o.endY)
        self._set(x0, y0, x1 - x0, y1 - y0)

    def contains(self, o):
        if isinstance(o, Box2I):
            return o.isEmpty() or (
                self.beginX <= o.beginX and self.beginY <= o.beginY
                and self.endX >= o.endX and self.endY >= o.endY)
        return self.beginX <= o.x < self.endX and self.beginY <= o.y < self.endY

    def overlaps(self, o):
        b = Box2I(self)
        b.clip(o)
        return not b.isEmpty()

    def include(self, o):
        if not isinstance(o, Box2I):
            o = Box2I(Point2I(o.x, o.y), Extent2I(1, 1))
        if self.isEmpty():
            self._set(o.beginX, o.beginY, o.width, o.height)
        elif not o.isEmpty():
            x0, y0 = min(self.beginX, o.beginX), min(self.beginY, o.beginY)
            x1, y1 = max(self.endX, o.endX), max(self.endY, o.endY)
            self._set(x0, y0, x1 - x0, y1 - y0)

    def shift(self, o):
        self._set(self.beginX + o.x, self.beginY + o.y, self.width, self.height)

    def shiftedBy(self, o):
        b = Box2I(self)
        b.shift(o)
        return b

    def clippedTo(self, o):
        b = Box2I(self)
        b.clip(o)
        return b

    def expandedTo(self, o):
        b = Box2I(self)
        b.include(o)
        return b

    def dilatedBy(self, n):
        b = Box2I(self)
        b.grow(n)
        return b

    def erodedBy(self, n):
        return self.dilatedBy(-n)

    @classmethod
    def makeCenteredBox(cls, center, size):
        p = Point2I(Point2D(center.x - (size.x - 1)/2, center.y - (size.y - 1)/2))
        return cls(p, size)

    def getCenterX(self):
        return self.getCenter().x

    def getCenterY(self):
        return self.getCenter().y

    def getSlices(self):
        return slice(self.beginY, self.endY), slice(self.beginX, self.endX)

    x = property(lambda s: _Interval(s.beginX, s.endX))
    y = property(lambda s: _Interval(s.beginY, s.endY))
    begin = property(getMin)
    end = property(lambda s: Point2I(s.endX, s.endY))
    min = property(getMin)
    max = property(getMax)
    dimensions = property(getDimensions)
    center = property(getCenter)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    area = property(getArea)

    def getEnd(self):
        return self.end

    def __contains__(self, o):
        return self.contains(o)

    def __eq__(self, o):
        return isinstance(o, Box2I) and (
            (self.beginX, self.beginY, self.width, self.height)
            == (o.beginX, o.beginY, o.width, o.height))

    def __repr__(self):
        return "Box2I(x=%d..%d, y=%d..%d)" % (self.minX, self.maxX, self.minY, self.maxY)


class Box2D:
    """covers the pixels of an integer box, or between two points"""
    def __init__(self, *args):
        if len(args) == 1 and isinstance(args[0], Box2I):
            b = args[0]
            self.a = (b.beginX - 0.5, b.beginY - 0.5, b.endX - 0.5, b.endY - 0.5)
        elif len(args) == 1:
            self.a = args[0].a
        else:
            p, q = args
            if isinstance(q, (Extent2D, Extent2I)):
                q = Point2D(p.x + q.x, p.y + q.y)
            self.a = (p.x, p.y, q.x, q.y)

    def getCenter(self):
        return Point2D((self.a[0] + self.a[2])/2, (self.a[1] + self.a[3])/2)

    def getMinX(self):
        return self.a[0]

    def getMinY(self):
        return self.a[1]

    def getMaxX(self):
        return self.a[2]

    def getMaxY(self):
        return self.a[3]

    def getWidth(self):
        return self.a[2] - self.a[0]

    def getHeight(self):
        return self.a[3] - self.a[1]

    def contains(self, p):
        return self.a[0] <= p.x < self.a[2] and self.a[1] <= p.y < self.a[3]


class AngleUnit:
    def __init__(self, rad):
        self.rad = rad


radians = AngleUnit(1.0)
degrees = AngleUnit(np.pi/180)
arcminutes = AngleUnit(np.pi/180/60)
arcseconds = AngleUnit(np.pi/180/3600)


class Angle:
    def __init__(self, v, unit=radians):
        self._r = float(v)*unit.rad

    def asDegrees(self):
        return self._r/degrees.rad

    def asRadians(self):
        return self._r

    def asArcseconds(self):
        return self._r/arcseconds.rad


class SpherePoint:
    def __init__(self, ra, dec, unit=None):
        if unit is not None:
            ra, dec = Angle(ra, unit), Angle(dec, unit)
        self._ra, self._dec = ra, dec

    def getRa(self):
        return self._ra

    def getDec(self):
        return self._dec

    getLongitude, getLatitude = getRa, getDec


class LinearTransform:
    def __init__(self, m):
        self.m = np.array(m, dtype=float)

    def getMatrix(self):
        return self.m


class AffineTransform:
    def __init__(self, m, t):
        self.m, self.t = m, t

    def getLinear(self):
        return LinearTransform(self.m)

    def getTranslation(self):
        return Extent2D(*self.t)
