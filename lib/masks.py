"""generators and reference models for hole and apodization masks"""
import numpy as np
from hypothesis import strategies as st
from scipy.special import betainc

from lib.gen import fl, halfint, rare


@st.composite
def dims_st(draw, lo, hi, square=False):
    num = draw(rare(st.just(st.integers(lo, hi)), st.just(st.integers(lo, 4*hi))))
    ny = draw(num)
    return ny, (ny if square else draw(num))


@st.composite
def holes_st(draw, ny, nx, rmax=30, nmax=6):
    out = []
    if draw(st.integers(0, 7)) == 0:
        # a hole of a few pixels, often of one
        return [[draw(fl(0, nx-1)), draw(fl(0, ny-1)), draw(fl(0.4, 1.5))]]
    for _ in range(draw(rare(st.integers(0, nmax), st.integers(0, 8*nmax)))):
        where = draw(st.sampled_from(["in", "in", "near", "far"]))
        pad = {"in": 0, "near": 6, "far": 40}[where]
        num = draw(st.sampled_from([fl, halfint]))
        x = draw(num(-pad, nx-1+pad))
        y = draw(num(-pad, ny-1+pad))
        r = draw(rare(st.one_of(num(0, 6), num(0, rmax)), num(0, 20*rmax), 24))
        out.append([x, y, r])
    return out


def hole_arrays(holes, dtype="f8"):
    a = np.array(holes, dtype="f8").reshape(-1, 3).astype(dtype)
    return a[:, 0].copy(), a[:, 1].copy(), a[:, 2].copy()


def hole_bmask_ref(xm, ym, rm, dims, symmetrize, tol=1e-7):
    """pixels surely inside of some hole, and pixels surely outside of all

    a pixel is inside when its distance to the centre is strictly less than the
    radius; pixels whose distance equals the radius within rounding, but not
    exactly, are left undecided
    """
    yy, xx = np.mgrid[:dims[0], :dims[1]].astype("f8")
    sure_in = np.zeros(dims, dtype=bool)
    maybe = np.zeros(dims, dtype=bool)
    for x, y, r in zip(xm, ym, rm):
        d2 = (xx-x)**2 + (yy-y)**2
        exact = (2*x == np.rint(2*x)) & (2*y == np.rint(2*y)) & (2*r == np.rint(2*r))
        if exact:
            sure_in |= d2 < r*r
            maybe |= d2 < r*r
        else:
            eps = tol*max(1.0, r*r)
            sure_in |= d2 < r*r - eps
            maybe |= d2 < r*r + eps
    if symmetrize:
        sure_in = sure_in | np.rot90(sure_in)
        maybe = maybe | np.rot90(maybe)
    return sure_in, ~maybe


def kern(dist, rim, h):
    """cumulative triweight from 0 (at rim - 6h) to 1 (at rim)"""
    t = ((np.asarray(dist, dtype="f8") - rim)/h + 6)/6
    return betainc(4.0, 4.0, np.clip(t, 0, 1))


def hole_apod_ref(xm, ym, rm, dims, symmetrize, h):
    yy, xx = np.mgrid[:dims[0], :dims[1]].astype("f8")
    m = np.ones(dims)
    for x, y, r in zip(xm, ym, rm):
        d = np.sqrt((xx-x)**2 + (yy-y)**2)
        m *= np.where(d < r, kern(d, r, h), 1.0)
    if symmetrize:
        m = m*np.rot90(m)
    return m


def edge_apod_ref(dims, h):
    rng = int(6*h + 0.5)
    out = np.ones(dims)
    for ax in (0, 1):
        i = np.arange(dims[ax], dtype="f8")
        f = kern(i, rng, h)*kern(dims[ax] - 1 - i, rng, h)
        out *= f[:, None] if ax == 0 else f[None, :]
    return out
