"""P24: metacal images of LSST exposures"""
import numpy as np
from hypothesis import strategies as st

import lsst.afw.image as afw_image
import lsst.geom as geom
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import Sub, require
from metadetect.lsst import util
from metadetect.lsst.metacal_exposures import (
    get_metacal_exps, get_metacal_exps_fixnoise, get_metacal_mbexps,
    get_metacal_mbexps_fixnoise,
)

PROPERTY = "P24"
RULE = (
    "1-3 bands of 44-64 pixels a side (also not square) at any origin, orientation and "
    "parity, with Gaussian PSFs that may change with position and a Gaussian galaxy "
    "anywhere near the centre of the image and of the noise image; any subset of shear "
    "types, with and without PSF statistics; non-trivial: elliptical galaxy and at least "
    "one shear; distinct by full case"
)
ALL = ("noshear", "1p", "1m", "2p", "2m")
DIL = 1.02
SHEAR = {"noshear": (0, 0), "1p": (0.01, 0), "1m": (-0.01, 0), "2p": (0, 0.01),
         "2m": (0, -0.01)}


def cov(T, e1, e2):
    """covariance in (u, v)"""
    return T/2*np.array([[1 + e1, e2], [e2, 1 - e1]])


def shear_matrix(t):
    g1, g2 = SHEAR[t]
    return np.array([[1 + g1, g2], [g2, 1 - g1]])/np.sqrt(1 - g1**2 - g2**2)


def gauss(shape, M, C, off, flux):
    """off: (u, v) offset from the true centre; integrates to flux in pixel units"""
    y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
    p = np.stack([x - (shape[1] - 1)/2, y - (shape[0] - 1)/2], axis=-1) @ M.T - off
    I = np.linalg.inv(C)
    q = np.einsum("...i,ij,...j->...", p, I, p)
    return flux*abs(np.linalg.det(M))/(2*np.pi*np.sqrt(np.linalg.det(C)))*np.exp(-q/2)


obj_st = st.fixed_dictionaries({
    "T": fl(2.0, 6.0), "e1": fl(-0.4, 0.4), "e2": fl(-0.4, 0.4),
    "dx": fl(-5, 5), "dy": fl(-5, 5), "flux": st.sampled_from([1.0, -3.0, 100.0]),
})


@st.composite
def cases(draw):
    w = draw(L.mbexp_st(1, 3, 44, 64))
    for p in w["psf"]:
        p.update(dim=draw(st.sampled_from([31, 33])), T=draw(fl(4.0, 7.0)),
                 grad=draw(st.sampled_from([0.0, 0.0, 0.002])))
        p["e1"] /= 2
        p["e2"] /= 2
    d = w["psf"][0]["dim"]
    for p in w["psf"]:
        p["dim"] = d
    n = len(w["bands"])
    return {
        "world": w, "obj": [draw(obj_st) for _ in range(n)],
        "noise": [draw(obj_st) for _ in range(n)],
        "types": draw(st.one_of(st.none(), st.lists(
            st.sampled_from(ALL), min_size=1, max_size=3, unique=True))),
        "stats": draw(st.booleans()),
        "st": [[draw(fl(1.1, 1.4)), draw(fl(-0.1, 0.1)), draw(fl(-0.1, 0.1))]
               for _ in range(n)],
        "api": draw(st.sampled_from(["mb-fix", "mb-fix", "mb", "mb-rot", "one-fix",
                                     "one"])),
        "bad": draw(st.sampled_from([None]*9 + ["type", "len"])),
    }


def setup(c):
    """T are in pixels squared here; convert to arcsec"""
    w = c["world"]
    g = w["g"]
    s2 = g["scale"]**2
    w = dict(w, psf=[dict(p, T=p["T"]*s2) for p in w["psf"]], double=True)
    exps, nexps = L.build_exps(w), L.build_exps(w, salt=2)
    M = L.uv_matrix(g)
    cx, cy = L.center_of(g)
    shape = (g["ny"], g["nx"])
    R = np.array([[0, 1], [-1, 0.0]])       # offsets (x, y) of rot90 images
    truth, ntruth = [], []
    for i, (e, n) in enumerate(zip(exps, nexps)):
        p = w["psf"][i]
        f = max(1 + p["grad"]*(cx - g["x0"]) + 0.7*p["grad"]*(cy - g["y0"]), 0.2)
        # e1, e2 of gauss_kernel: T/2 (1+e1) along u
        Cp = cov(p["T"]*f, p["e1"], p["e2"])
        o = c["obj"][i]
        Cg = cov(o["T"]*s2, o["e1"], o["e2"])
        off = M @ np.array([o["dx"], o["dy"]])
        e.image.array[:, :] = gauss(shape, M, Cg + Cp, off, o["flux"]*p["norm"])
        truth.append((Cg, off, o["flux"], Cp, p["norm"]))
        o = c["noise"][i]
        Cg = cov(o["T"]*s2, o["e1"], o["e2"])
        off = M @ np.array([o["dx"], o["dy"]])
        # in the frame rotated by 90 degrees
        n.image.array[:, :] = np.rot90(
            gauss(shape[::-1], M, Cg + Cp, off, o["flux"]*p["norm"]), k=3)
        ntruth.append((Cg, off, o["flux"], Cp, p["norm"]))
    _ = R
    return w, exps, nexps, truth, ntruth, M, shape


def expected(t, typ, M, shape, Ct, rot):
    Cg, off, flux, Cp, norm = t
    S = shear_matrix(typ)
    sh = shape[::-1] if rot else shape
    im = gauss(sh, M, S @ Cg @ S.T + Ct, S @ off, flux*norm)
    return np.rot90(im, k=3) if rot else im


def check(c, ctx):
    w, exps, nexps, truth, ntruth, M, shape = setup(c)
    g = w["g"]
    nb = len(exps)
    types = c["types"]
    want = list(types) if types is not None else ["noshear", "1p", "1m"]
    api = c["api"]
    one = api.startswith("one")
    if one:
        k = nb - 1
        alltruth = truth
        exps, nexps, truth, ntruth = exps[k:], nexps[k:], truth[k:], ntruth[k:]
    kw = {}
    if types is not None:
        kw["types"] = list(types)
    if c["bad"] == "type":
        kw["types"] = want + ["1x"]
    stats = None
    if c["stats"]:
        stats = np.zeros(nb, dtype=[("e1", "f8"), ("e2", "f8"), ("T", "f8")])
        for i, (f, e1, e2) in enumerate(c["st"]):
            # a multiple of the size of the PSF at the centre
            stats[i] = (e1, e2, f*np.trace((truth if not one else alltruth)[i][3]))
        if one:
            stats = stats[nb - 1:]
        kw["psf_stats"] = stats[0] if one else stats
        if c["bad"] == "len":
            if one:
                return
            kw["psf_stats"] = np.concatenate([stats, stats[:1]])
    elif c["bad"] == "len":
        return
    mb = exps[0] if one else util.get_mbexp(exps)
    nmb = nexps[0] if one else util.get_mbexp(nexps)
    lists = [exps if one else list(mb.singles), nexps if one else list(nmb.singles)]
    before = [L.snap(x) for x in lists]
    try:
        if api == "mb-fix":
            out, nout = get_metacal_mbexps_fixnoise(mb, nmb, **kw)
        elif api == "one-fix":
            out, nout = get_metacal_exps_fixnoise(mb, nmb, **kw)
        elif api == "mb":
            out, nout = get_metacal_mbexps(mb, **kw), None
        elif api == "mb-rot":
            out, nout = None, get_metacal_mbexps(nmb, rot=True, **kw)
        else:
            out, nout = get_metacal_exps(mb, **kw), None
    except ValueError:
        require(c["bad"] == "type", "legal types were refused")
        return
    except AssertionError:
        require(c["bad"] == "len", "legal PSF statistics were refused")
        return
    require(c["bad"] is None, "a bad %s was accepted", c["bad"])
    require(all(L.same(b, L.snap(x)) for b, x in zip(before, lists)),
            "the input exposures were modified")
    if any(t != "noshear" for t in want):
        ctx.nontrivial()
    ctx.note(api, "stats" if c["stats"] else "nostats")
    pos = geom.Point2D(*L.center_of(g))
    fix = api.endswith("fix")

    for d in (out, nout):
        if d is not None:
            require(list(d) == want, "types %s, expected %s", list(d), want)

    first = (out or nout)[want[0]]
    sizes = []
    for i in range(len(exps)):
        e = first if one else first.singles[i]
        pim = e.getPsf().computeKernelImage(pos).array
        dim = w["psf"][0]["dim"]
        require(pim.shape == (dim, dim), "shape of the PSF image")
        Cp, norm = truth[i][3:]
        if stats is not None:
            T, e1, e2 = stats["T"][i], stats["e1"][i], stats["e2"][i]
            sig2 = T/2*np.sqrt(1 + np.hypot(e1, e2))*DIL**2
        else:
            # a Gaussian: from its peak and flux
            mid = pim[dim//2, dim//2]
            sig2 = norm*abs(np.linalg.det(M))/(2*np.pi*mid)
            require(sig2 > 0.9*np.linalg.eigvalsh(Cp).max(),
                    "the PSF shrinks: variance %s from %s", sig2, np.diag(Cp))
            require(sig2 < 4*np.linalg.eigvalsh(Cp).max(), "the PSF is far too large")
        sizes.append(sig2)

    for d, tr, rot, bef in ((out, truth, False, before[0]), (nout, ntruth, True, before[1])):
        if d is None:
            continue
        for t in want:
            m = d[t]
            if not one:
                require(tuple(m.bands) == tuple(mb.bands), "bands")
            for i in range(len(exps)):
                e = m if one else m.singles[i]
                what = "%s%s, band %d" % ("noise " if rot else "", t, i)
                Ct = sizes[i]*np.eye(2)
                pim = e.getPsf().computeKernelImage(pos).array
                pe = gauss(pim.shape, M, Ct, np.zeros(2), tr[i][4])
                require(np.allclose(pim, pe, atol=3e-4*pe.max()),
                        "%s: PSF is not the round dilated Gaussian (off by %g of the "
                        "peak)", what, np.abs(pim - pe).max()/pe.max())
                exp = expected(tr[i], t, M, shape, Ct, rot)
                amp = np.abs(exp).max()
                if fix and not rot:
                    nim = expected(ntruth[i], t, M, shape, Ct, True)
                    amp = max(amp, np.abs(nim).max())
                    exp = exp + nim
                df = np.abs(e.image.array - exp).max()/amp
                require(df < 3e-4, "%s: the image is off by %g of its peak", what, df)
                v = bef[i][2]*(2 if fix and not rot else 1)
                require(np.allclose(e.variance.array, v, rtol=1e-6), "%s: variance", what)
                require(np.array_equal(e.mask.array, bef[i][1]), "%s: mask", what)
                require(e.getWcs() is bef[i][4] and e.getXY0() == bef[i][5]
                        and e.getFilter().bandLabel == bef[i][6],
                        "%s: WCS, origin or filter", what)
                require(e.image.array.dtype == np.float64, "%s: not double", what)
    # every type has its own pixels
    for d in (out, nout):
        if d is None:
            continue
        es = [(d[t] if one else d[t].singles[0]) for t in want]
        if fix and nout is not None:
            es += [nout[t] if one else nout[t].singles[0] for t in want]
        for a in range(len(es)):
            for b in range(a):
                if es[a] is not es[b]:
                    require(not np.shares_memory(es[a].image.array, es[b].image.array)
                            and not np.shares_memory(es[a].variance.array,
                                                     es[b].variance.array),
                            "two types share pixels")


lin = st.fixed_dictionaries({
    "world": L.mbexp_st(1, 1, 12, 30), "type": st.sampled_from(ALL), "seed": seeds,
    "rot": st.booleans(), "a": fl(-3, 3), "b": fl(0.1, 3)})


def check_linear(c, ctx):
    """images of pure noise: metacal is linear in the image"""
    w = dict(c["world"], double=True)
    w["psf"] = [dict(w["psf"][0], T=5*w["g"]["scale"]**2, dim=25)]
    r = np.random.RandomState(c["seed"])
    e1, e2, e3 = (L.build_exps(w)[0] for _ in range(3))
    shape = e1.image.array.shape
    e1.image.array[:, :] = r.normal(size=shape)
    e2.image.array[:, :] = r.normal(size=shape)
    e3.image.array[:, :] = c["a"]*e1.image.array + c["b"]*e2.image.array
    s = np.zeros(1, dtype=[("e1", "f8"), ("e2", "f8"), ("T", "f8")])
    s["T"] = 5*w["g"]["scale"]**2
    t = c["type"]
    a, b, ab = (get_metacal_exps(e, psf_stats=s[0], types=[t], rot=c["rot"])[t]
                .image.array for e in (e1, e2, e3))
    ctx.nontrivial()
    x = c["a"]*a + c["b"]*b
    require(np.allclose(ab, x, atol=1e-4*np.abs(x).max()), "metacal is not linear: %g",
            np.abs(ab - x).max())
    if c["rot"]:
        # rotating the given image by hand
        if shape[0] == shape[1]:
            e1.image.array[:, :] = np.rot90(e1.image.array, k=1)
            a2 = get_metacal_exps(e1, psf_stats=s[0], types=[t])[t].image.array
            require(np.allclose(np.rot90(a2, k=3), a, atol=1e-5*np.abs(a).max()),
                    "rot does not rotate by 90 degrees and back")


SUBS = [Sub("gauss", cases(), check, 1800, 20000),
        Sub("linear", lin, check_linear, 500, 8000)]
_ = (afw_image,)
