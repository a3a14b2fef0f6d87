"""build LSST exposures (stand-ins) from small JSON cases, with an independent
model of their WCS and PSF"""
import numpy as np
from hypothesis import strategies as st

import lsst.afw.image as afw_image
import lsst.afw.table as afw_table
import lsst.geom as geom
from lsst.afw.detection import Footprint
from lsst.afw.geom import SpanSet, makeSkyWcs
from lsst.pex.exceptions import InvalidParameterError

from lib.gen import fl, rare, seeds

BANDS = ("u", "g", "r", "i", "z", "y")
PLANES = ("BAD", "SAT", "INTRP", "CR", "EDGE", "DETECTED", "NO_DATA", "SUSPECT")


@st.composite
def geom_st(draw, lo=8, hi=40, square=None):
    num = draw(rare(st.just(st.integers(lo, hi)),
                    st.just(st.integers(lo, hi if hi > 60 else 2*hi + 20)), 20))
    ny = draw(num)
    nx = ny if square else draw(num)
    return {
        "ny": ny, "nx": nx,
        "x0": draw(st.sampled_from([0, 0, 1, 7, 100, 5000, -3])),
        "y0": draw(st.sampled_from([0, 0, 2, 9, 60, 3000, -5])),
        "scale": draw(fl(0.1, 0.4)), "rot": draw(st.one_of(
            st.just(0.0), fl(-3.14, 3.14))),
        "flip": draw(st.booleans()),
        "ra": draw(st.sampled_from([0.0001, 20.0, 200.0, 359.9999])),
        "dec": draw(st.sampled_from([0.0, -30.0, 60.0])),
        "ox": draw(fl(-30, 30)), "oy": draw(fl(-30, 30)),
    }


def cd_of(g):
    """arcsec of (lon, lat) per (x, y)"""
    c, s = np.cos(g["rot"]), np.sin(g["rot"])
    m = np.array([[c, -s], [s, c]])
    if g["flip"]:
        m = np.array([[-1, 0], [0, 1]]) @ m
    return g["scale"]*m


def uv_of(g, dx, dy):
    """(u, v) in arcsec (v north, u west) of pixel offsets"""
    m = cd_of(g)
    return -(m[0, 0]*dx + m[0, 1]*dy), m[1, 0]*dx + m[1, 1]*dy


def make_wcs(g):
    crpix = geom.Point2D(g["x0"] + g["nx"]/2 + g["ox"], g["y0"] + g["ny"]/2 + g["oy"])
    return makeSkyWcs(crpix, geom.SpherePoint(g["ra"], g["dec"], geom.degrees),
                      cd_of(g)/3600)


def center_of(g):
    """the central pixel, in parent coordinates (ties go up)"""
    cx = g["x0"] + (g["nx"] - 1)/2
    cy = g["y0"] + (g["ny"] - 1)/2
    return np.floor(cx + 0.5), np.floor(cy + 0.5)


def jac_matrix(jac):
    return np.array([[jac.dudcol, jac.dudrow], [jac.dvdcol, jac.dvdrow]])


def uv_matrix(g):
    m = cd_of(g)
    return np.array([[-m[0, 0], -m[0, 1]], [m[1, 0], m[1, 1]]])


def gauss_kernel(g, dim, T, e1, e2, shift=(0.0, 0.0)):
    """normalized Gaussian kernel image, T = trace in arcsec^2"""
    c = (dim - 1)/2
    y, x = np.mgrid[:dim, :dim].astype(float)
    u, v = uv_of(g, x - c - shift[0], y - c - shift[1])
    irr, irc, icc = T/2*(1 - e1), T/2*e2, T/2*(1 + e1)
    det = irr*icc - irc**2
    im = np.exp(-0.5*(icc*v*v - 2*irc*u*v + irr*u*u)/det)
    return im/im.sum()


class Psf:
    """Gaussian PSF, optionally growing across the image; can fail"""
    def __init__(self, g, dim, T, e1=0.0, e2=0.0, grad=0.0, fail=False, noclone=False,
                 norm=1.0):
        self.g, self.dim, self.T, self.e1, self.e2 = g, dim, T, e1, e2
        self.grad, self.fail, self.noclone, self.norm = grad, fail, noclone, norm

    def array(self, x, y):
        f = 1.0
        if self.grad:
            f += self.grad*(x - self.g["x0"]) + 0.7*self.grad*(y - self.g["y0"])
        return self.norm*gauss_kernel(
            self.g, self.dim, self.T*max(f, 0.2), self.e1, self.e2)

    def computeKernelImage(self, pos=None, *a):
        if self.fail:
            raise InvalidParameterError("no psf here")
        if pos is None:
            raise InvalidParameterError("the harness needs a position")
        if self.grad and not np.isfinite(pos.x + pos.y):
            raise InvalidParameterError("no psf at nan")
        return afw_image.ImageD(self.array(pos.x, pos.y))

    computeImage = computeKernelImage

    def clone(self):
        if self.noclone:
            raise RuntimeError("cannot clone")
        o = type(self).__new__(type(self))
        o.__dict__.update(self.__dict__)
        return o


psf_st = st.fixed_dictionaries({
    "dim": st.sampled_from([7, 9, 15]), "T": fl(0.1, 0.6), "e1": fl(-0.2, 0.2),
    "e2": fl(-0.2, 0.2), "grad": st.sampled_from([0.0, 0.0, 0.004, 0.02]),
    "noclone": st.booleans(), "norm": st.sampled_from([1.0, 1.0, 0.9]),
})


@st.composite
def mbexp_st(draw, nmin=1, nmax=4, lo=8, hi=40, square=None, var="any"):
    g = draw(geom_st(lo, hi, square))
    nband = draw(rare(st.integers(nmin, nmax), st.integers(nmin, 6 if nmax > 2 else nmax)))
    bands = draw(st.permutations(BANDS))[:nband]
    dim = draw(st.sampled_from([7, 9, 15]))
    # units far from the usual ones (not where images are fitted)
    scale = draw(rare(st.just(1.0), st.sampled_from([1e-4, 1e4]))) if var == "any" else 1.0
    return {
        "g": g, "bands": list(bands), "seed": draw(seeds),
        "psf": [dict(draw(psf_st), dim=dim) for _ in range(nband)],
        "lev": [draw(st.sampled_from([0.01, 0.3, 1.0, 5.0, 40.0]))*scale for _ in range(nband)],
        "var": draw(st.sampled_from(
            ["const", "vary", "holes", "inf", "poisson"] if var == "any" else var)),
        "mask": draw(st.sampled_from([0.0, 0.05, 0.3])),
        "double": draw(st.booleans()),
    }


def build_exps(w, salt=0, **kw):
    """list of exposures, one per band"""
    g = w["g"]
    r = np.random.RandomState((w["seed"] + 977*salt) % 2**32)
    out = []
    shape = (g["ny"], g["nx"])
    box = geom.Box2I(geom.Point2I(g["x0"], g["y0"]), geom.Extent2I(g["nx"], g["ny"]))
    hole = r.uniform(size=shape) < 0.15
    hole[r.randint(shape[0]), r.randint(shape[1])] = False
    for i, b in enumerate(w["bands"]):
        cls = afw_image.ExposureD if w["double"] else afw_image.ExposureF
        e = cls(box)
        lev = w["lev"][i]
        var = np.full(shape, lev)
        if w["var"] in ("vary", "poisson"):
            var *= r.uniform(0.6, 1.7, size=shape)
        elif w["var"] == "holes":
            var *= r.uniform(0.9, 1.2, size=shape)
            var[hole] = 0
        elif w["var"] == "inf":
            var[hole] = np.inf
        im = r.normal(size=shape)*np.sqrt(lev) + r.uniform(-2, 2)
        if w["var"] == "poisson":
            cy, cx = shape[0]*r.uniform(0.2, 0.8), shape[1]*r.uniform(0.2, 0.8)
            y, x = np.mgrid[:shape[0], :shape[1]]
            s = 20*lev*np.exp(-0.5*((y - cy)**2 + (x - cx)**2)/9)
            im = im + s
            var = var + s
        e.image.array[:, :] = im
        e.variance.array[:, :] = var
        m = np.zeros(shape, dtype="i4")
        for n in PLANES:
            m[r.uniform(size=shape) < w["mask"]] |= afw_image.Mask.getPlaneBitMask(n)
        e.mask.array[:, :] = m
        p = w["psf"][i]
        e.setPsf(Psf(g, p["dim"], p["T"], p["e1"], p["e2"], p["grad"], kw.get("fail", False),
                     p["noclone"], p["norm"]))
        e.setWcs(make_wcs(g))
        e.setFilter(afw_image.FilterLabel(b))
        out.append(e)
    return out


def snap(exps):
    return [(e.image.array.copy(), e.mask.array.copy(), e.variance.array.copy(),
             e.getPsf(), e.getWcs(), e.getXY0(),
             None if e.getFilter() is None else e.getFilter().bandLabel) for e in exps]


def same(a, b):
    return len(a) == len(b) and all(
        np.array_equal(p[0], q[0], equal_nan=True) and np.array_equal(p[1], q[1])
        and np.array_equal(p[2], q[2], equal_nan=True) and p[3] is q[3]
        and p[4] is q[4] and p[5] == q[5] and p[6] == q[6]
        for p, q in zip(a, b))


def footprint(pixels, peaks):
    """pixels, peaks: lists of (x, y) in parent coordinates"""
    fp = Footprint(SpanSet([p[1] for p in pixels], [p[0] for p in pixels]))
    for x, y in peaks:
        fp.addPeak(x, y, 1.0)
    return fp


def catalog(table=None):
    if table is None:
        table = afw_table.SourceTable.make(afw_table.SourceTable.makeMinimalSchema())
    return afw_table.SourceCatalog(table)
