"""P08: coadding bands"""
import numpy as np
import ngmix
from hypothesis import strategies as st

from lib.gen import rare, seeds
from lib.harness import Sub, require
from lib.obs import jac_st, make_jac, snapshot, same_snap
from metadetect import procflags
from metadetect.fitting import make_coadd_obs

PROPERTY = "P08"
RULE = (
    "1-5 bands of 2-16 pixel random planes with general WCS, weights with holes, "
    "any subset of optional planes, any list of shear bands (order, repeated, out "
    "of range) and one optional inconsistency (WCS, shape, PSF, missing plane, no "
    "weights); now and then "
    "several times larger, more or brighter; non-trivial: at least two shear bands; distinct by full case"
)
DEFECTS = [None]*8 + ["jac_scale", "jac_cen", "shape", "nopsf", "psf_jac", "psf_shape",
                      "miss_mfrac", "miss_noise", "miss_bmask", "miss_ormask",
                      "zero_weight", "disjoint", "some_disjoint"]
OPT = ("mfrac", "noise", "bmask", "ormask")


@st.composite
def cases(draw):
    nband = draw(rare(st.integers(1, 5), st.integers(5, 9)))
    sb = draw(st.one_of(
        st.none(),
        st.lists(st.integers(0, nband-1), min_size=1, max_size=nband, unique=True),
        st.lists(st.integers(0, nband), min_size=1, max_size=3, unique=True)))
    num = draw(rare(st.just(st.integers(2, 16)), st.just(st.integers(1, 64)), 24))
    return {"nband": nband, "ny": draw(num), "nx": draw(num),
            "lev": draw(rare(st.just(2), st.integers(0, 12))),
            "unit": draw(rare(st.just(0), st.integers(-20, 20))), "seed": draw(seeds),
            "jac": draw(jac_st()), "shear_bands": sb,
            "planes": [n for n in OPT if draw(st.integers(0, 4)) > 0],
            "defect": draw(st.sampled_from(DEFECTS)),
            "where": draw(st.integers(0, nband-1)),
            "zero_wt": draw(st.sampled_from([0.0, 0.2, 0.6])),
            "meta": draw(st.booleans())}


def build(c):
    r = np.random.RandomState(c["seed"])
    mbobs = ngmix.MultiBandObsList(meta={"mb": 1} if c["meta"] else None)
    for b in range(c["nband"]):
        hit = b == c["where"]
        d = c["defect"] if hit else None
        shape = (c["ny"], c["nx"])
        if d == "shape":
            shape = (c["ny"] + 1, c["nx"])
        jac = make_jac(c["jac"], (c["ny"], c["nx"]))
        j = c["jac"]
        if d == "jac_scale":
            jac = make_jac(dict(j, scale=j["scale"]*1.01), shape)
        elif d == "jac_cen":
            jac = make_jac(dict(j, dcol=j["dcol"] + 0.25), shape)
        lev = 10.0**(r.uniform(-1, 1)*c.get("lev", 2) + c.get("unit", 0))
        amp = 10.0**(-c.get("unit", 0)/2)
        w = lev*r.uniform(0.3, 3, size=shape)
        w[r.uniform(size=shape) < c["zero_wt"]] = 0
        if c["defect"] in ("disjoint", "some_disjoint"):
            par = np.add(*np.mgrid[:shape[0], :shape[1]]) % 2
            if c["defect"] == "some_disjoint":
                par[:1] = 0
            w[par == int(hit)] = 0
        if d == "zero_weight":
            w[:] = 0
        elif not np.any(w > 0):
            w[r.randint(shape[0]), r.randint(shape[1])] = lev
        kw = {}
        for n in c["planes"]:
            if d == "miss_" + n:
                continue
            kw[n] = (r.uniform(size=shape) if n == "mfrac" else
                     amp*r.normal(size=shape) if n == "noise" else
                     (1 << r.randint(0, 31, size=shape))
                     * (r.uniform(size=shape) < 0.4).astype("i4"))
        psf = None
        if d != "nopsf":
            ps = (5, 7) if d == "psf_shape" else (5, 5)
            pj = ngmix.DiagonalJacobian(
                row=2, col=2, scale=0.31 if d == "psf_jac" else 0.3)
            psf = ngmix.Observation(
                r.uniform(0.1, 1, size=ps), weight=np.full(ps, r.uniform(1, 9)),
                jacobian=pj, meta={"psfband": b})
        ol = ngmix.ObsList(meta={"list%d" % b: b} if c["meta"] else None)
        ol.append(ngmix.Observation(
            amp*r.normal(size=shape), weight=w, jacobian=jac, psf=psf,
            meta={"band%d" % b: b, "last": b} if c["meta"] else None,
            ignore_zero_weight=bool(np.any(w > 0)), **kw))
        mbobs.append(ol)
    return mbobs


def check(c, ctx):
    mbobs = build(c)
    nband = len(mbobs)
    before = [snapshot(ol[0]) for ol in mbobs]
    pbefore = [ol[0].psf.image.copy() if ol[0].has_psf() else None for ol in mbobs]
    with np.errstate(all="ignore"):
        if c["shear_bands"] is None:
            coadd, flags = make_coadd_obs(mbobs)
        else:
            coadd, flags = make_coadd_obs(mbobs, shear_bands=list(c["shear_bands"]))
    for b, p, ol in zip(before, pbefore, mbobs):
        require(same_snap(b, snapshot(ol[0])), "the inputs were modified")
        require(p is None or np.array_equal(p, ol[0].psf.image), "PSF modified")
    sb = list(range(nband)) if c["shear_bands"] is None else list(c["shear_bands"])
    inc, zero = procflags.INCONSISTENT_BANDS, procflags.ZERO_WEIGHTS

    def refused(bit, why):
        require(coadd is None, "%s: an observation was returned", why)
        require(flags & bit != 0, "%s: flags are %d", why, flags)
        ctx.note(why)

    if any(s >= nband for s in sb):
        return refused(inc, "band that does not exist")
    if len(sb) == 1:
        require(flags == 0 and coadd is not None, "single band refused: %s", flags)
        require(same_snap(before[sb[0]], snapshot(coadd)),
                "a single band must be passed through")
        ctx.note("single band")
        return
    ctx.nontrivial()
    d = c["defect"] if c["where"] in sb else None
    if d in ("jac_scale", "jac_cen", "shape", "nopsf", "psf_jac", "psf_shape"):
        return refused(inc, d)
    if d == "zero_weight":
        return refused(zero, d)
    ws = np.array([before[s]["weight"] for s in sb])
    good = np.all(ws > 0, axis=0)
    if not good.any():
        require(coadd is None and flags != 0, "no pixel has weight in all bands")
        ctx.note("no common pixel")
        if d is None or d == "disjoint":
            require(flags & zero != 0, "no weight left: flags are %d", flags)
        return
    if d and d.startswith("miss_") and d[5:] in c["planes"]:
        return refused(inc, "missing plane")
    require(flags == 0 and coadd is not None, "consistent bands refused: %s", flags)
    ctx.note("coadded", "holes" if not good.all() else "full")
    med = np.array([np.median(w[w > 0]) for w in ws])
    a = med/med.sum()
    with np.errstate(divide="ignore"):
        var = np.sum(a[:, None, None]**2/ws, axis=0)

    def mean(n):
        return np.tensordot(a, np.array([before[s][n] for s in sb]), 1)

    def close(x, y):
        return x.shape == y.shape and np.allclose(
            x, y, rtol=1e-9, atol=1e-12*np.abs(y).max())

    require(close(coadd.image, mean("image")), "image is not the weighted mean")
    exp = np.where(good, 1/np.where(good, var, 1), 0)
    require(np.allclose(coadd.weight, exp, rtol=1e-9, atol=0),
            "weight is not the inverse variance of the weighted mean")
    require(close(coadd.psf.image, np.tensordot(
        a, np.array([pbefore[s] for s in sb]), 1)), "PSF is not the weighted mean")
    require(np.all(coadd.psf.weight > 0) and np.all(np.isfinite(coadd.psf.weight)),
            "PSF weight is not positive")
    for n in OPT:
        has = n in c["planes"]
        require(getattr(coadd, "has_" + n)() == has or not has
                and not np.any(getattr(coadd, n)), "plane %s", n)
        if not has:
            continue
        if n in ("mfrac", "noise"):
            require(close(getattr(coadd, n), mean(n)),
                    "%s is not the weighted mean", n)
        else:
            exp = np.bitwise_or.reduce([before[s][n] for s in sb])
            require(np.array_equal(getattr(coadd, n), exp),
                    "%s is not the OR of the bands", n)
    f = mbobs[sb[0]][0]
    require(repr(coadd.jacobian) == repr(f.jacobian)
            and repr(coadd.psf.jacobian) == repr(f.psf.jacobian), "WCS changed")
    if c["meta"]:
        exp = {"mb": 1, "last": sb[-1]}
        for s in sb:
            exp["band%d" % s] = s
            exp["list%d" % s] = s
        require(dict(coadd.meta) == exp, "metadata %s, expected %s",
                dict(coadd.meta), exp)


SUBS = [Sub("coadd", cases(), check, 12000, 200000)]
