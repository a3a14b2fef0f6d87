"""P29: masked fraction, OR mask and original PSF of LSST rows"""
import numpy as np
import ngmix
from hypothesis import strategies as st

import lsst.afw.image as afw_image
from lib import lsstworld as L
from lib.gen import fl, halfint, seeds
from lib.harness import Sub, require
from metadetect import procflags
from metadetect.lsst import util
from metadetect.lsst.measure import get_output_struct
from metadetect.lsst.metadetect import (
    add_mfrac, add_original_psf, add_ormask, combine_ormasks, fit_original_psfs_mbexp,
    get_mfrac_mbexp, measure_weighted_mfrac,
)

PROPERTY = "P29"
RULE = (
    "masked fraction images of any shape, scale and orientation with positions in, at the "
    "edge and outside of the image; 1-4 bands with weights, variance holes, OR masks and "
    "PSFs, also failing; non-trivial: two bands, or two positions in the image; distinct by "
    "full case"
)


def rows_at(g, pos):
    """rows at (x, y) of the array"""
    base = np.zeros(len(pos), dtype=[("dummy", "i4")])
    res = get_output_struct(base)
    res["row0"], res["col0"] = g["y0"], g["x0"]
    res["row"] = [g["y0"] + y for x, y in pos]
    res["col"] = [g["x0"] + x for x, y in pos]
    return res


@st.composite
def mfrac_case(draw):
    g = draw(L.geom_st(5, 40))
    pos = draw(st.lists(st.one_of(
        st.tuples(halfint(0, g["nx"] - 1), halfint(0, g["ny"] - 1)),
        st.tuples(fl(0, g["nx"] - 1), fl(0, g["ny"] - 1))), min_size=0, max_size=5))
    # radii off the image, per axis; at least one is beyond the aperture
    far = draw(st.sampled_from([None]*3 + [[-1, 0], [0, -1], [1, 0], [0, 1], [-1, -1],
                                           [1, -1]]))
    if far is not None:
        far = far + [draw(fl(0.1, 1.5))]
    return {"g": g, "pos": [list(p) for p in pos], "far": far, "seed": draw(seeds),
            "fwhm": draw(st.sampled_from([None, None, 0.8, 1.2, 2.5])),
            "kind": draw(st.sampled_from(["random", "random", "zero", "one", "pixel"]))}


def expected_mfrac(mf, x, y, scale, fwhm):
    """(low, high): whether pixels at the very rim of the aperture count is open"""
    sig = (fwhm or 1.2)/np.sqrt(8*np.log(2))
    ny, nx = mf.shape
    yy, xx = np.mgrid[:ny, :nx]
    r2 = ((xx - x)**2 + (yy - y)**2)*scale**2
    wt = np.exp(-0.5*r2/sig**2)*(r2 < (5*sig)**2)
    return (wt*mf).sum()/wt.sum() if wt.sum() > 0 else None


def check_mfrac(c, ctx):
    g = c["g"]
    r = np.random.RandomState(c["seed"])
    shape = (g["ny"], g["nx"])
    mf = {"random": r.uniform(size=shape)**2, "zero": np.zeros(shape),
          "one": np.ones(shape), "pixel": np.zeros(shape)}[c["kind"]]
    if c["kind"] == "pixel":
        mf[r.randint(shape[0]), r.randint(shape[1])] = 1
    exp = [expected_mfrac(mf, x, y, g["scale"], c["fwhm"]) for x, y in c["pos"]]
    pos = list(c["pos"])
    if c["far"] is not None:
        fx, fy, more = c["far"]
        rad = 5*(c["fwhm"] or 1.2)/np.sqrt(8*np.log(2))/g["scale"] + 3 + more*15

        def at(f, n):
            return -rad if f < 0 else n - 1 + rad if f > 0 else n//2
        pos.append((at(fx, shape[1]), at(fy, shape[0])))
        exp.append(1.0)
    jac = ngmix.Jacobian(row=shape[0]/2, col=shape[1]/3, **{
        k: v for k, v in zip(("dudcol", "dudrow", "dvdcol", "dvdrow"),
                             L.uv_matrix(g).ravel())})
    x, y = (np.array([p[k] for p in pos], dtype=float) for k in (0, 1))
    m0, x0, y0 = mf.copy(), x.copy(), y.copy()
    got = measure_weighted_mfrac(mfrac=mf, x=x, y=y, jac=jac, fwhm=c["fwhm"])
    require(np.array_equal(mf, m0) and np.array_equal(x, x0) and np.array_equal(y, y0),
            "inputs were modified")
    require(len(got) == len(pos), "%d values for %d positions", len(got), len(pos))
    for k, (a, e) in enumerate(zip(got, exp)):
        require(abs(a - e) < 1e-5, "position %s: masked fraction %s, expected %s", pos[k],
                a, e)
    # the same for rows
    e = afw_image.ExposureF(L.build_exps({
        "g": g, "bands": ["r"], "seed": 1, "psf": [
            {"dim": 7, "T": 0.3, "e1": 0, "e2": 0, "grad": 0, "noclone": False, "norm": 1}],
        "lev": [1.0], "var": "const", "mask": 0, "double": False})[0], True)
    res = rows_at(g, pos)
    before = res.copy()
    add_mfrac({} if c["fwhm"] is None else {"mfrac_fwhm": c["fwhm"]}, mf, res, e)
    for k, (a, x) in enumerate(zip(res["mfrac"], exp)):
        if np.any(mf > 0):
            # rows are single precision, and so are their positions
            require(abs(a - x) < 5e-3, "row at %s: masked fraction %s, expected %s", pos[k],
                    a, x)
        else:
            require(a == 0, "masked fraction %s, but nothing is masked", a)
    for n in res.dtype.names:
        require(n == "mfrac" or np.array_equal(res[n], before[n], equal_nan=(
            res[n].dtype.kind == "f")), "column %s changed", n)
    if len(c["pos"]) > 1 and c["kind"] in ("random", "pixel"):
        ctx.nontrivial()
    ctx.note(c["kind"])


@st.composite
def ormask_case(draw):
    g = draw(L.geom_st(3, 20))
    pos = draw(st.lists(st.tuples(fl(-0.45, g["nx"] - 0.55), fl(-0.45, g["ny"] - 0.55)),
                        max_size=5))
    return {"g": g, "pos": [list(p) for p in pos], "seed": draw(seeds),
            "n": draw(st.integers(0, 4)), "nb": draw(st.integers(1, 3))}


def check_ormask(c, ctx):
    g = c["g"]
    r = np.random.RandomState(c["seed"])
    shape = (g["ny"], g["nx"])
    masks = [r.randint(0, 2**30, size=shape).astype("i4")
             & r.randint(0, 2**30, size=shape).astype("i4") for _ in range(c["n"])] or None
    w = {"g": g, "bands": list(L.BANDS[:c["nb"]]), "seed": 1, "psf": [
        {"dim": 7, "T": 0.3, "e1": 0, "e2": 0, "grad": 0, "noclone": False, "norm": 1}]
        * c["nb"], "lev": [1.0]*c["nb"], "var": "const", "mask": 0.3, "double": False}
    mb = util.get_mbexp(L.build_exps(w))
    snap = L.snap(list(mb.singles))
    keep = None if masks is None else [m.copy() for m in masks]
    om = combine_ormasks(mb, masks)
    exp = np.zeros(shape, "i4") if masks is None else np.bitwise_or.reduce(keep)
    require(om.shape == shape and np.array_equal(om, exp), "not the OR of the OR masks")
    require(L.same(snap, L.snap(list(mb.singles))), "the exposures were modified")
    require(masks is None or all(np.array_equal(a, b) for a, b in zip(masks, keep)),
            "the OR masks given were modified")
    if masks is not None:
        require(not any(np.shares_memory(om, m) for m in masks), "shares pixels")
    res = rows_at(g, c["pos"])
    before = res.copy()
    om0 = om.copy()
    add_ormask(om, res)
    require(np.array_equal(om, om0), "the OR mask was modified")
    for k, row in enumerate(res):
        x, y = float(row["col"]) - g["x0"], float(row["row"]) - g["y0"]
        iy, ix = int(np.floor(y + 0.5)), int(np.floor(x + 0.5))
        require(row["ormask"] == exp[iy, ix], "row %d at (%s, %s): OR mask %s, the pixel "
                "has %s", k, y, x, row["ormask"], exp[iy, ix])
    for n in res.dtype.names:
        require(n == "ormask" or np.array_equal(res[n], before[n], equal_nan=(
            res[n].dtype.kind == "f")), "column %s changed", n)
    if c["n"] > 1 and len(c["pos"]) > 1:
        ctx.nontrivial()


@st.composite
def psf_case(draw):
    w = draw(L.mbexp_st(1, 4, 16, 40))
    for p in w["psf"]:
        p.update(dim=31, T=draw(fl(4.0, 9.0)), norm=draw(st.sampled_from([1.0, 0.7])),
                 grad=draw(st.sampled_from([0.0, 0.003])))
    return {"world": w, "seed": draw(seeds), "mf": draw(st.sampled_from([None, "yes"])),
            "dead": draw(st.sampled_from(["no"]*7 + ["one", "zero", "nan"])),
            "which": draw(st.integers(0, 3)),
            "fail": draw(st.sampled_from([None]*5 + ["flat", "call", "range"])),
            "shear": draw(st.one_of(st.none(), st.lists(
                st.integers(0, 3), min_size=1, max_size=3))),
            "missing": draw(st.sampled_from([False]*7 + [True]))}


class FlatPsf(L.Psf):
    def array(self, x, y):
        return np.zeros((self.dim, self.dim))


def check_psf(c, ctx):
    w = c["world"]
    g = w["g"]
    s2 = g["scale"]**2
    w = dict(w, psf=[dict(p, T=p["T"]*s2) for p in w["psf"]])
    exps = L.build_exps(w)
    nb = len(exps)
    k = c["which"] % nb
    if c["dead"] != "no":
        exps[k].variance.array[:, :] = {"one": np.inf, "zero": 0.0, "nan": np.nan}[c["dead"]]
    mb = util.get_mbexp(exps)
    singles = list(mb.singles)
    mfmb, mfs = None, np.zeros((nb,) + singles[0].image.array.shape)
    if c["mf"]:
        r = np.random.RandomState(c["seed"])
        m = L.build_exps(w, salt=7)
        for b, e in enumerate(m):
            e.image.array[:, :] = r.uniform(size=mfs[b].shape)
            mfs[b] = e.image.array
        mfmb = util.get_mbexp(m)
    before = L.snap(singles)
    try:
        mf, wgts = get_mfrac_mbexp(mbexp=mb, mfrac_mbexp=mfmb)
    except ValueError:
        require(c["dead"] != "no", "refused, but every band has finite variances")
        require(L.same(before, L.snap(singles)), "the exposures were modified")
        ctx.note("no variance")
        return
    require(c["dead"] == "no", "a band without any finite variance was accepted")
    ew = []
    for s in before:
        v = s[2][np.isfinite(s[2]) & (s[2] > 0)].astype(float)
        ew.append(1/np.median(v))
    ew = np.array(ew)
    require(len(wgts) == nb and np.allclose(wgts, ew, rtol=1e-5), "weights %s, expected %s",
            wgts, ew)
    em = np.einsum("b,bij->ij", ew, mfs)/ew.sum()
    require(mf.shape == em.shape and np.allclose(mf, em, atol=1e-5), "masked fraction is "
            "not the weighted mean")
    if mfmb is not None:
        require(all(np.array_equal(e.image.array, m)
                    for e, m in zip(mfmb.singles, mfs)), "masked fractions were modified")
    # PSFs
    names = None if c["shear"] is None else [w["bands"][i % nb] for i in c["shear"]]
    if c["missing"]:
        names = (names or []) + ["Q"]
    shear = [i for i, b in enumerate(w["bands"]) if names is None or b in names]
    if c["fail"] == "flat":
        p = w["psf"][k]
        singles[k].setPsf(FlatPsf(g, p["dim"], p["T"]))
        mb = util.get_mbexp(singles)
        singles = list(mb.singles)
        before = L.snap(singles)
    hit = []
    old = ngmix.runners.PSFRunner.go

    def go(me, obs, *a, **kw):
        hit.append(1)
        if c["fail"] in ("call", "range") and len(hit) == k + 1:
            if c["fail"] == "range":
                raise ngmix.gexceptions.GMixRangeError("out of range")
            return {"flags": 4}
        return old(me, obs, *a, **kw)
    ngmix.runners.PSFRunner.go = go
    conf = {"shear_bands": None if names is None else list(names)}
    try:
        st_ = fit_original_psfs_mbexp(mbexp=mb, rng=np.random.RandomState(c["seed"]),
                                      wgts=list(ew), config=conf)
    except RuntimeError:
        require(c["missing"], "legal shear bands were refused")
        ctx.note("refused")
        return
    finally:
        ngmix.runners.PSFRunner.go = old
    require(not c["missing"], "a shear band that does not exist was accepted")
    require(L.same(before, L.snap(singles)), "the exposures were modified")
    res = rows_at(g, [(1, 1), (2, 3), (3, 2)][:1 + c["seed"] % 3])
    rb = res.copy()
    add_original_psf(st_, res)
    for n in res.dtype.names:
        require(n.startswith("psfrec") or np.array_equal(
            res[n], rb[n], equal_nan=(res[n].dtype.kind == "f")), "column %s changed", n)
    failed = c["fail"] == "flat" or (c["fail"] is not None and len(hit) > k)
    if failed:
        require(st_["flags"] == procflags.PSF_FAILURE, "flags %s of a failure", st_["flags"])
        require(np.all(res["psfrec_flags"] == procflags.PSF_FAILURE), "flags of the rows")
        ctx.note("failed")
        return
    require(st_["flags"] == 0 and st_["navg"] == len(shear), "flags %s, navg %s", st_["flags"],
            st_["navg"])
    ccx, ccy = L.center_of(g)
    tot = np.zeros(3)
    pb = st_["perband"]
    require(len(pb) == nb, "%d bands", len(pb))
    for b in range(nb):
        p = w["psf"][b]
        f = max(1 + p["grad"]*(ccx - g["x0"]) + 0.7*p["grad"]*(ccy - g["y0"]), 0.2)
        v = np.array([p["e1"], p["e2"], p["T"]*f])
        if v[2]/s2 > 14:
            ctx.note("wide")
            return      # the stamp is too small for the PSF
        require(abs(pb["e1"][b] - v[0]) < 2e-3 and abs(pb["e2"][b] - v[1]) < 2e-3
                and abs(pb["T"][b]/v[2] - 1) < 5e-3, "band %d: PSF %s, expected %s", b, pb[b],
                v)
        require(abs(pb["wgt"][b]/ew[b] - 1) < 1e-9 and pb["is_shear_band"][b] == (b in shear),
                "band %d: weight or shear band", b)
        if b in shear:
            tot += ew[b]*v
    tot /= ew[shear].sum()
    g1, g2 = ngmix.shape.e1e2_to_g1g2(tot[0], tot[1])
    for n, x, tol in (("e1", tot[0], 2e-3), ("e2", tot[1], 2e-3), ("g1", g1, 2e-3),
                      ("g2", g2, 2e-3), ("T", tot[2], 5e-3*tot[2])):
        require(abs(st_[n] - x) < tol, "%s is %s, expected %s", n, st_[n], x)
    require(np.all(res["psfrec_flags"] == 0) and np.all(res["psfrec_navg"] == len(shear))
            and np.allclose(res["psfrec_g"], [st_["g1"], st_["g2"]], rtol=1e-9)
            and np.allclose(res["psfrec_T"], st_["T"]), "PSF columns of the rows")
    if nb > 1:
        ctx.nontrivial()


SUBS = [Sub("mfrac", mfrac_case(), check_mfrac, 2500, 20000),
        Sub("ormask", ormask_case(), check_ormask, 2500, 20000),
        Sub("psf", psf_case(), check_psf, 2000, 20000)]
