"""build ngmix observations from small JSON cases"""
import numpy as np
import ngmix
from hypothesis import strategies as st

from lib.gen import fl, rare, seeds


def jac_st(max_shear=0.2):
    return st.fixed_dictionaries({
        "scale": fl(0.1, 1.0), "s1": fl(-max_shear, max_shear),
        "s2": fl(-max_shear, max_shear), "rot": fl(-3.2, 3.2),
        "flip": st.booleans(), "drow": fl(-2, 2), "dcol": fl(-2, 2),
        "diag": st.booleans(),
    })


def jac_mat(j):
    """(dvdrow, dvdcol, dudrow, dudcol)"""
    if j["diag"]:
        return j["scale"], 0.0, 0.0, j["scale"]
    a = np.array([[1 + j["s1"], j["s2"]], [j["s2"], 1 - j["s1"]]])
    c, s = np.cos(j["rot"]), np.sin(j["rot"])
    m = j["scale"] * (np.array([[c, -s], [s, c]]) @ a)
    if j["flip"]:
        m[0] *= -1
    return m[0, 0], m[0, 1], m[1, 0], m[1, 1]


def make_jac(j, shape):
    dvdrow, dvdcol, dudrow, dudcol = jac_mat(j)
    return ngmix.Jacobian(
        row=(shape[0]-1)/2 + j["drow"], col=(shape[1]-1)/2 + j["dcol"],
        dvdrow=dvdrow, dvdcol=dvdcol, dudrow=dudrow, dudcol=dudcol)


def gauss_image(shape, row, col, jac, T, g1, g2, flux):
    """surface brightness of a Gaussian, integral = flux in pixel sums"""
    e1, e2 = ngmix.shape.g1g2_to_e1e2(g1, g2)
    irr, irc, icc = T/2*(1-e1), T/2*e2, T/2*(1+e1)
    rr, cc = np.mgrid[:shape[0], :shape[1]].astype("f8")
    drow, dcol = rr - row, cc - col
    v = jac.dvdrow*drow + jac.dvdcol*dcol
    u = jac.dudrow*drow + jac.dudcol*dcol
    det = irr*icc - irc**2
    chi2 = (icc*v*v - 2*irc*u*v + irr*u*u)/det
    im = np.exp(-0.5*chi2)
    area = abs(jac.dvdrow*jac.dudcol - jac.dvdcol*jac.dudrow)
    return flux*area*im/(2*np.pi*np.sqrt(det))


MASKB = (1, 2, 4, 8, 2**10, 2**20, 2**29, 2**30)


@st.composite
def plane_mbobs_st(draw, nmin=1, nmax=4, lo=3, hi=24, square=False, nepoch=1,
                   always=()):
    """multi-band observations with arbitrary planes (no astronomical content)"""
    num = draw(rare(st.just(st.integers(lo, hi)), st.just(st.integers(lo, 3*hi)), 16))
    ny = draw(num)
    nx = ny if square else draw(num)
    nband = draw(rare(st.integers(nmin, nmax), st.integers(nmin, 2*nmax)))
    return {
        "ny": ny, "nx": nx, "seed": draw(seeds), "nband": nband,
        "nepoch": [draw(st.integers(1, nepoch)) for _ in range(nband)],
        "mfrac": True if "mfrac" in always else draw(st.booleans()),
        "zero_wt": draw(st.sampled_from([0.0, 0.0, 0.1, 0.5])),
        "const_wt": draw(st.booleans()),
        "lev": draw(rare(st.just(2), st.integers(0, 12))),
    }


def build_plane_mbobs(case):
    r = np.random.RandomState(case["seed"])
    shape = (case["ny"], case["nx"])
    mbobs = ngmix.MultiBandObsList()
    for band in range(case["nband"]):
        ol = ngmix.ObsList()
        for _ in range(case["nepoch"][band]):
            lev = 10.0**(r.uniform(-1, 1)*case.get("lev", 2))
            if case["const_wt"]:
                w = np.full(shape, lev)
            else:
                w = lev*r.uniform(0.5, 1.5, size=shape)
            z = r.uniform(size=shape) < case["zero_wt"]
            z[r.randint(shape[0]), r.randint(shape[1])] = False
            w[z] = 0
            bm = np.zeros(shape, dtype="i4")
            om = np.zeros(shape, dtype="i4")
            for b in MASKB:
                bm[r.uniform(size=shape) < 0.05] |= b
                om[r.uniform(size=shape) < 0.05] |= b
            kw = {}
            if case["mfrac"]:
                kw["mfrac"] = r.uniform(0, 0.9, size=shape)
            psf = ngmix.Observation(
                r.uniform(0.1, 1, size=(5, 5)), weight=np.ones((5, 5)))
            ol.append(ngmix.Observation(
                r.normal(size=shape, scale=1/np.sqrt(lev)) + r.uniform(-3, 3),
                weight=w, bmask=bm, ormask=om,
                noise=r.normal(size=shape, scale=1/np.sqrt(lev)), psf=psf,
                jacobian=ngmix.DiagonalJacobian(
                    row=(shape[0]-1)/2, col=(shape[1]-1)/2, scale=0.25), **kw))
        mbobs.append(ol)
    return mbobs


PLANES = ("image", "weight", "bmask", "ormask", "noise", "mfrac")


def snapshot(obs):
    d = {n: np.array(getattr(obs, n)) for n in PLANES if hasattr(obs, n)}
    d["izw"] = obs.ignore_zero_weight
    return d


def snap_mbobs(mbobs):
    return [[snapshot(o) for o in ol] for ol in mbobs]


def same_snap(a, b):
    if set(a) != set(b):
        return False
    return all(np.array_equal(a[k], b[k], equal_nan=True) if k != "izw"
               else a[k] == b[k] for k in a)
