"""P18: exposures and observations are converted without loss"""
import numpy as np
from hypothesis import strategies as st

import lsst.afw.image as afw_image
import lsst.geom as geom
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import Finding, Sub, require
from metadetect.lsst import util

PROPERTY = "P18"
RULE = (
    "exposures of 8-40 pixels a side at any origin, orientation, parity and pixel scale, "
    "with constant, varying, zero or infinite variances, mask bits, float or double "
    "pixels and Gaussian PSFs that may change with position; sources on or off the "
    "image, with or without a sky position; now and then "
    "several times larger, more or brighter; non-trivial: origin not zero or orientation "
    "not aligned; distinct by full case"
)


def close(a, b, rtol=2e-6, atol=0):
    return np.allclose(a, b, rtol=rtol, atol=atol)


def check_jac(g, jac, col, row, what):
    require(abs(jac.col0 - col) < 2e-4 and abs(jac.row0 - row) < 2e-4,
            "%s: centre is (%s, %s), expected (%s, %s)", what, jac.col0, jac.row0, col, row)
    m, e = L.jac_matrix(jac), L.uv_matrix(g)
    ok = min(np.abs(m - e).max(), np.abs(m + e).max()) < 2e-3*g["scale"]
    require(ok, "%s: WCS matrix %s, expected %s or its negative", what, m, e)


def nontriv(w, ctx):
    g = w["g"]
    if g["x0"] or g["y0"] or g["rot"]:
        ctx.nontrivial()
    ctx.note("var " + w["var"], "flip" if g["flip"] else "noflip")


def expected_weight(var):
    w = np.zeros(var.shape)
    ok = np.isfinite(var) & (var > 0)
    w[ok] = 1/var[ok].astype(float)
    return w


def check_exp2obs(c, ctx):
    w = c["world"]
    exp = L.build_exps(w)[0]
    nontriv(w, ctx)
    before = L.snap([exp])
    g, p = w["g"], w["psf"][0]
    kw = {} if c["to"] == "default" else {"copy_mask_to": c["to"]}
    if c["store"]:
        kw["store_exp"] = True
    if c["to"] == "mask":
        try:
            util.exp2obs(exp, **kw)
        except RuntimeError:
            return
        require(False, "an unknown mask name was accepted")
    obs = util.exp2obs(exp, **kw)
    require(L.same(before, L.snap([exp])), "the exposure was modified")
    require(np.array_equal(obs.image, before[0][0]), "image differs")
    require(close(obs.weight, expected_weight(before[0][2])), "weight is not 1/variance")
    to = "ormask" if c["to"] == "default" else c["to"]
    other = "bmask" if to == "ormask" else "ormask"
    require(np.array_equal(getattr(obs, to), before[0][1]), "%s is not the mask", to)
    require(not np.any(getattr(obs, other)), "%s is not zero", other)
    cx, cy = L.center_of(g)
    check_jac(g, obs.jacobian, cx - g["x0"], cy - g["y0"], "image")
    pc = (p["dim"] - 1)/2
    check_jac(g, obs.psf.jacobian, pc, pc, "PSF")
    require(close(obs.psf.image, exp.getPsf().array(cx, cy), 1e-6, 1e-9),
            "the PSF is not that of the central pixel")
    require(np.all(obs.psf.weight > 0), "PSF weight")
    require(("exposure" in obs.meta) == c["store"]
            and (not c["store"] or obs.meta["exposure"] is exp), "stored exposure")

    # back again
    src = to if c["back"] == "same" else c["back"]
    if c["into"]:
        tgt = L.build_exps(dict(w, double=c["double2"]), salt=3)[0]
        psf, wcs = tgt.getPsf(), tgt.getWcs()
        out = util.obs2exp(obs, exp=tgt, copy_mask_from=src, copy_psf=c["copy_psf"])
        require(out is tgt, "the given exposure is not returned")
        require(out.getWcs() is wcs and out.getXY0() == geom.Point2I(g["x0"], g["y0"]),
                "WCS or origin changed")
        if not c["copy_psf"]:
            require(out.getPsf() is psf, "the PSF was replaced")
    else:
        kw = {} if src == "bmask" and c["copy_psf"] else {"copy_mask_from": src}
        out = util.obs2exp(obs, copy_psf=c["copy_psf"], **kw)
    if c["copy_psf"]:
        k = out.getPsf().computeKernelImage(geom.Point2D(1, 2)).array
        require(close(k, obs.psf.image), "the PSF was not copied")
    require(out.image.array.shape == obs.image.shape
            and close(out.image.array, obs.image, 1e-6, 1e-6), "image after round trip")
    m = before[0][1] if src == to else 0*before[0][1]
    require(np.array_equal(out.mask.array, m), "mask after round trip")
    v = before[0][2]
    good = np.isfinite(v) & (v > 0)
    require(close(out.variance.array[good], v[good], 1e-5)
            and np.all(np.isposinf(out.variance.array[~good])),
            "variance after round trip")
    try:
        util.obs2exp(obs, copy_mask_from="mfrac")
    except RuntimeError:
        return
    require(False, "an unknown mask name was accepted")


e2o = st.fixed_dictionaries({
    "world": L.mbexp_st(1, 1), "to": st.sampled_from(
        ["default", "bmask", "ormask", "ormask", "bmask", "mask"]),
    "store": st.booleans(), "into": st.booleans(), "copy_psf": st.booleans(),
    "double2": st.booleans(), "back": st.sampled_from(["same", "bmask", "ormask"]),
})


def check_extract(c, ctx):
    w = dict(c["world"])
    g, p = w["g"], w["psf"][0]
    nontriv(w, ctx)
    exp = L.build_exps(w, fail=c["psf_fails"])[0]
    wcs = exp.getWcs()
    if c["dead"]:
        exp.variance.array[:, :] = {"zero": 0, "inf": np.inf}[c["dead"]]
    sx = g["x0"] + c["fx"]*(g["nx"] - 1)
    sy = g["y0"] + c["fy"]*(g["ny"] - 1)
    px, py = int(np.floor(sx)) + c["dpx"], int(np.floor(sy)) + c["dpy"]
    cat = L.catalog()
    src = cat.addNew()
    src.setFootprint(L.footprint([(px, py)], [(px, py), (px + 3, py - 2)]))
    # centroid and sky position may differ (e.g. measured on another image)
    src.setCentroid(geom.Point2D(sx, sy))
    cx, cy = sx + c["shift"], sy - c["shift"]
    if c["nocoord"]:
        cx, cy = px, py
    else:
        src.setCoord(wcs.pixelToSky(geom.Point2D(cx, cy)))
    before = L.snap([exp])
    try:
        obs = util.extract_obs(exp=exp, source=src)
    except util.AllZeroWeightError:
        require(c["dead"], "there is weight, but it was refused")
        ctx.note("no weight")
        return
    except util.MissingDataError:
        require(c["psf_fails"], "there is a PSF, but it was refused")
        ctx.note("no psf")
        return
    require(not c["dead"] and not c["psf_fails"], "an unusable stamp was accepted")
    require(L.same(before, L.snap([exp])), "the exposure was modified")
    require(np.array_equal(obs.image, before[0][0])
            and np.array_equal(obs.bmask, before[0][1]), "image or mask differ")
    v = before[0][2].astype(float)
    med = np.median(v[v > 0])
    good = np.isfinite(v) & (v > 0)
    require(close(obs.weight[good], 1/med), "weight is not 1/median variance")
    check_jac(g, obs.jacobian, cx - g["x0"], cy - g["y0"], "stamp")
    pc = (p["dim"] - 1)/2
    check_jac(g, obs.psf.jacobian, pc, pc, "PSF")
    require(close(obs.psf.image, exp.getPsf().array(sx, sy), 1e-5, 1e-8),
            "the PSF is not that at the position of the source")
    oc = obs.meta["orig_cen"]
    require((oc.getX(), oc.getY()) == (sx, sy), "position in the metadata")


ext = st.fixed_dictionaries({
    "world": L.mbexp_st(1, 1), "fx": fl(0, 1), "fy": fl(0, 1),
    "dpx": st.integers(-1, 2), "dpy": st.integers(-1, 2),
    "nocoord": st.sampled_from([False, False, True]),
    "shift": st.sampled_from([0.0, 0.0, 0.3]),
    "dead": st.sampled_from([None, None, None, None, "zero", "inf"]),
    "psf_fails": st.sampled_from([False]*7 + [True]),
})


def same_pixels(e, s):
    return (np.array_equal(e.image.array, s[0]) and np.array_equal(e.mask.array, s[1])
            and np.array_equal(e.variance.array, s[2], equal_nan=True))


def psf_same(e, s, at):
    return np.array_equal(e.getPsf().computeKernelImage(at).array,
                          s[3].computeKernelImage(at).array)


def check_mbexp(c, ctx):
    w = c["world"]
    g = w["g"]
    nontriv(w, ctx)
    exps = L.build_exps(w)
    before = L.snap(exps)
    mb = util.get_mbexp(exps)
    require(L.same(before, L.snap(exps)), "the exposures were modified")
    require(tuple(mb.bands) == tuple(w["bands"]), "bands %s", mb.bands)
    at = geom.Point2D(g["x0"] + 3.25, g["y0"] + 1.5)

    def check(m, what, image=True):
        require(len(m) == len(exps) and m.getBBox() == exps[0].getBBox(),
                "%s: number of bands or bounding box", what)
        for b, s in zip(w["bands"], before):
            e = m[b]
            if image:
                require(same_pixels(e, s), "%s: pixels of %s", what, b)
            else:
                require(not np.any(e.image.array), "%s: image is not cleared", what)
                require(np.array_equal(e.mask.array, s[1]) and np.array_equal(
                    e.variance.array, s[2]), "%s: mask or variance of %s", what, b)
            require(psf_same(e, s, at), "%s: PSF of %s", what, b)
            require(e.getWcs() is s[4] and e.getXY0() == s[5], "%s: WCS of %s", what, b)
            require(e.getFilter().bandLabel == s[6], "%s: filter of %s", what, b)
            require(e.image.array.dtype == s[0].dtype, "%s: pixel type", what)

    check(mb, "multi-band exposure")
    cp = util.copy_mbexp(mb, clear=c["clear"]) if c["clear"] is not None \
        else util.copy_mbexp(mb)
    check(cp, "copy", image=not c["clear"])
    for e in cp.singles:
        e.image.array[:, :] = 77
        e.mask.array[:, :] = 0
        e.variance.array[:, :] = 9
    check(mb, "the original after editing the copy")
    # shear band indices
    want = c["shear"]
    names = None if want is None else [
        w["bands"][i % len(exps)] for i in want] + (["Q"] if c["missing"] else [])
    try:
        idx = util.extract_shear_band_indices(mb, {"shear_bands": names})
    except RuntimeError:
        require(names is not None and c["missing"], "existing bands were refused")
        return
    require(names is None or not c["missing"], "a missing band was accepted")
    exp_idx = list(range(len(exps))) if not names else [
        i for i, b in enumerate(w["bands"]) if b in names]
    require(list(idx) == exp_idx, "indices %s, expected %s", idx, exp_idx)


mbc = st.fixed_dictionaries({
    "world": L.mbexp_st(1, 4), "clear": st.sampled_from([None, False, True]),
    "shear": st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=4)),
    "missing": st.sampled_from([False, False, False, True]),
})


def check_coadd_data(w, ctx):
    nontriv(w, ctx)
    sets = [L.build_exps(w, salt=k) for k in range(3)]
    before = [L.snap(s) for s in sets]
    lst = [dict(coadd_exp=a, coadd_noise_exp=b, coadd_mfrac_exp=c)
           for a, b, c in zip(*sets)]
    d = util.extract_multiband_coadd_data(lst)
    require(len(d["ormasks"]) == len(lst), "number of ormasks")
    for i, b in enumerate(w["bands"]):
        require(np.array_equal(d["ormasks"][i], before[0][i][1]), "ormask of %s", b)
        for k, n in enumerate(("mbexp", "noise_mbexp", "mfrac_mbexp")):
            e, s = d[n][b], before[k][i]
            require(not np.any(e.mask.array), "%s: mask of %s is not zero", n, b)
            require(np.array_equal(e.image.array, s[0]) and np.array_equal(
                e.variance.array, s[2]), "%s: pixels of %s", n, b)
            require(e.getWcs() is s[4] and e.getFilter().bandLabel == b, "%s: WCS", n)
        require(not np.shares_memory(d["ormasks"][i], sets[0][i].mask.array),
                "the ormask is not a copy")
    d["mbexp"].mask.array[:] = 5
    require(all(np.array_equal(a, s[1]) for a, s in zip(d["ormasks"], before[0])),
            "editing the mask changes the ormask")


def check_trim(c, ctx):
    im = np.random.RandomState(c["seed"]).normal(size=(2*c["hy"] + 1, 2*c["hx"] + 1))
    im0 = im.copy()
    out = util.trim_odd_image(im)
    require(np.array_equal(im, im0), "the image was modified")
    n = min(c["hy"], c["hx"])
    if c["hy"] != c["hx"]:
        ctx.nontrivial()
    exp = im0[c["hy"]-n:c["hy"]+n+1, c["hx"]-n:c["hx"]+n+1]
    require(out.shape == exp.shape and np.array_equal(out, exp),
            "not the centred square: %s of %s", out.shape, im.shape)


trim = st.fixed_dictionaries({"hy": st.integers(0, 12), "hx": st.integers(0, 12),
                              "seed": seeds})


def probe_sheared():
    """north-south pixels 20 per cent larger than east-west ones"""
    from lsst.afw.geom import makeSkyWcs
    e = afw_image.ExposureF(11, 11)
    e.setWcs(makeSkyWcs(geom.Point2D(5, 5), geom.SpherePoint(20, 0, geom.degrees),
                        np.array([[-0.2, 0], [0, 0.24]])/3600))
    j = util.get_jacobian(e, geom.Point2D(5, 5))
    if abs(abs(j.dudcol) - 0.2) > 1e-3:
        return ("get_jacobian for a WCS with 0.20 arcsec per column and 0.24 arcsec per "
                "row gives dudcol %.3f, dvdrow %.3f" % (j.dudcol, j.dvdrow))


FINDINGS = [Finding("sheared-wcs", probe_sheared)]

SUBS = [
    Sub("exp2obs", e2o, check_exp2obs, 3000, 30000),
    Sub("extract-obs", ext, check_extract, 3000, 30000),
    Sub("mbexp", mbc, check_mbexp, 1500, 15000),
    Sub("coadd-data", L.mbexp_st(1, 4), check_coadd_data, 800, 8000),
    Sub("trim", trim, check_trim, 400, 5000),
]
