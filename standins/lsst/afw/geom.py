import numpy as np

from lsst.geom import (
    AffineTransform, Angle, Box2I, Extent2I, Point2D, Point2I, SpherePoint,
    arcseconds, degrees, radians,
)


class SkyWcs:
    """gnomonic WCS; cd in degrees per pixel"""
    def __init__(self, crpix, crval, cd):
        self.crpix, self.crval = Point2D(crpix), crval
        self.cd = np.array(cd, dtype=float)
        self.icd = np.linalg.inv(self.cd)

    def _sky(self, x, y):
        d = self.cd @ np.array([np.atleast_1d(x) - self.crpix.x,
                                np.atleast_1d(y) - self.crpix.y], dtype=float)
        xi, eta = np.deg2rad(d)
        a0, d0 = self.crval.getRa().asRadians(), self.crval.getDec().asRadians()
        den = np.cos(d0) - eta*np.sin(d0)
        ra = a0 + np.arctan2(xi, den)
        dec = np.arctan2(np.sin(d0) + eta*np.cos(d0), np.hypot(xi, den))
        return ra % (2*np.pi), dec

    def _pix(self, ra, dec):
        a0, d0 = self.crval.getRa().asRadians(), self.crval.getDec().asRadians()
        ra, dec = np.atleast_1d(ra), np.atleast_1d(dec)
        c = np.sin(d0)*np.sin(dec) + np.cos(d0)*np.cos(dec)*np.cos(ra - a0)
        xi = np.cos(dec)*np.sin(ra - a0)/c
        eta = (np.cos(d0)*np.sin(dec) - np.sin(d0)*np.cos(dec)*np.cos(ra - a0))/c
        p = self.icd @ np.rad2deg(np.array([xi, eta]))
        return p[0] + self.crpix.x, p[1] + self.crpix.y

    def pixelToSky(self, *a):
        p = a[0] if len(a) == 1 else Point2D(*a)
        ra, dec = self._sky(p.x, p.y)
        return SpherePoint(Angle(ra[0]), Angle(dec[0]))

    def skyToPixel(self, s):
        x, y = self._pix(s.getRa().asRadians(), s.getDec().asRadians())
        return Point2D(x[0], y[0])

    def pixelToSkyArray(self, x, y, degrees=False):
        ra, dec = self._sky(np.array(x, dtype=float), np.array(y, dtype=float))
        return (np.rad2deg(ra), np.rad2deg(dec)) if degrees else (ra, dec)

    def skyToPixelArray(self, ra, dec, degrees=False):
        ra, dec = np.array(ra, dtype=float), np.array(dec, dtype=float)
        if degrees:
            ra, dec = np.deg2rad(ra), np.deg2rad(dec)
        return self._pix(ra, dec)

    def getPixelOrigin(self):
        return self.crpix

    def getSkyOrigin(self):
        return self.crval

    def getCdMatrix(self, *a):
        return self.cd.copy()

    def getPixelScale(self, *a):
        m = self.cd if not a else np.rad2deg(
            self.linearizePixelToSky(a[0]).getLinear().getMatrix())
        return Angle(np.deg2rad(np.sqrt(abs(np.linalg.det(m)))))

    def linearizePixelToSky(self, cen, unit=radians):
        """tangent plane offsets (longitude, latitude) per pixel step at cen"""
        ra0, dec0 = (v[0] for v in self._sky(cen.x, cen.y))
        loc = SkyWcs(Point2D(0, 0), SpherePoint(Angle(ra0), Angle(dec0)), np.eye(2))
        m = np.zeros((2, 2))
        for i, (dx, dy) in enumerate(((1, 0), (0, 1))):
            ra, dec = self._sky(cen.x + dx, cen.y + dy)
            x, y = loc._pix(ra, dec)
            m[:, i] = np.deg2rad([x[0], y[0]])/unit.rad
        t = np.array([ra0, dec0])/unit.rad - m @ np.array([cen.x, cen.y])
        return AffineTransform(m, t)


def makeSkyWcs(crpix, crval, cdMatrix):
    return SkyWcs(crpix, crval, cdMatrix)


def makeCdMatrix(scale, orientation=Angle(0), flipX=False):
    s, t = scale.asDegrees(), orientation.asRadians()
    f = -1 if flipX else 1
    return s*np.array([[f*np.cos(t), f*np.sin(t)], [-np.sin(t), np.cos(t)]])


class SpanSet:
    """a set of pixels: (y, x) index arrays in row-major order"""
    def __init__(self, y=(), x=()):
        if isinstance(y, Box2I):
            b = y
            y, x = np.mgrid[b.beginY:b.endY, b.beginX:b.endX]
            y, x = y.ravel(), x.ravel()
        y, x = np.array(y, dtype=int), np.array(x, dtype=int)
        o = np.lexsort((x, y))
        self.y, self.x = y[o], x[o]

    @staticmethod
    def fromMask(mask, bitmask=None):
        a = mask.array
        y, x = np.nonzero(a if bitmask is None else a & bitmask)
        xy0 = mask.getXY0()
        return SpanSet(y + xy0.y, x + xy0.x)

    def getBBox(self):
        if self.y.size == 0:
            return Box2I()
        return Box2I(Point2I(int(self.x.min()), int(self.y.min())),
                     Point2I(int(self.x.max()), int(self.y.max())))

    def getArea(self):
        return self.y.size

    def __len__(self):
        return len(np.unique(self.y))

    def contains(self, p):
        return bool(np.any((self.x == p.x) & (self.y == p.y)))

    def indices(self):
        return self.y.copy(), self.x.copy()

    def setImage(self, image, v):
        xy0 = image.getXY0()
        image.array[self.y - xy0.y, self.x - xy0.x] = v

    def setMask(self, mask, v):
        xy0 = mask.getXY0()
        mask.array[self.y - xy0.y, self.x - xy0.x] |= v

    def flatten(self, a, xy0=Point2I(0, 0)):
        return a[self.y - xy0.y, self.x - xy0.x]

    def unflatten(self, v):
        b = self.getBBox()
        a = np.zeros((b.height, b.width), dtype=np.asarray(v).dtype)
        a[self.y - b.beginY, self.x - b.beginX] = v
        return a


_unused = (Extent2I, arcseconds, degrees)
