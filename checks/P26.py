"""P26: one row per LSST source, holding its own measurements"""
import numpy as np
import ngmix
from hypothesis import strategies as st

import lsst.afw.image as afw_image
import lsst.geom as geom
import lsst.meas.base as meas_base
import lsst.scarlet.lite as scl
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import Sub, require
from lsst.meas.extensions.scarlet import (
    BlendData, HierarchicalBlendData, ScarletModelData,
)
from lsst.meas.extensions.scarlet.io.utils import updateCatalogFootprints
from lsst.pex.exceptions import InvalidParameterError
from metadetect import procflags
from metadetect.fitting import fit_mbobs_gauss, fit_mbobs_wavg
from metadetect.lsst import util
from metadetect.lsst.measure import (
    get_bmask, get_bmasks, get_detect_and_deblend_task, measure,
)

PROPERTY = "P26"
RULE = (
    "1-3 bands at any origin and orientation with 0-5 bright Gaussian sources, also near "
    "the edges, some of them parents, some with failing centroids, dead variance or no "
    "PSF, close neighbours when scarlet models are given, any stamp size and shear "
    "bands; non-trivial: two or more measured rows; distinct by full case"
)


@st.composite
def cases(draw):
    w = draw(L.mbexp_st(1, 3, 40, 64, var="const"))
    for p in w["psf"]:
        p.update(dim=21, T=draw(fl(3.0, 6.0)), grad=draw(st.sampled_from([0.0, 0.002])),
                 norm=1.0)
    g = w["g"]
    scarlet = draw(st.sampled_from([False, False, True]))
    src = []
    for _ in range(draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5]))):
        edge = draw(st.sampled_from([False, False, False, True]))
        m = 2 if edge else 14
        src.append({
            "x": draw(st.integers(m, g["nx"] - 1 - m)),
            "y": draw(st.integers(m, g["ny"] - 1 - m)),
            "fx": draw(fl(-0.5, 0.5)), "fy": draw(fl(-0.5, 0.5)),
            "T": draw(fl(8, 13)), "e1": draw(fl(-0.2, 0.2)), "e2": draw(fl(-0.2, 0.2)),
            "flux": [draw(fl(500, 4000)) for _ in w["bands"]],
            "parent": draw(st.sampled_from([False, False, False, True])),
            "cen": draw(st.sampled_from(["ok"]*6 + ["nan", "off"])),
            "dead": draw(st.sampled_from([None]*8 + ["var", "psf"])),
            "db": draw(st.integers(0, 2)),
        })
    return {"world": w, "src": src, "scarlet": scarlet, "seed": draw(seeds),
            "stamp": draw(st.integers(16, 26)), "fwhm": draw(st.sampled_from([1.2, 2.0])),
            "shear": draw(st.one_of(st.none(), st.lists(
                st.integers(0, 2), min_size=1, max_size=3)))}


class HolePsf(L.Psf):
    """fails near some positions"""
    def computeKernelImage(self, pos=None, *a):
        for x, y in self.holes:
            if pos is not None and np.hypot(pos.x - x, pos.y - y) < 1.5:
                raise InvalidParameterError("no psf here")
        return super().computeKernelImage(pos, *a)


def build(c):
    w = c["world"]
    g = w["g"]
    s2 = g["scale"]**2
    w = dict(w, psf=[dict(p, T=p["T"]*s2) for p in w["psf"]], double=False)
    exps = L.build_exps(w)
    nb = len(exps)
    M = L.uv_matrix(g)
    y, x = np.mgrid[:g["ny"], :g["nx"]].astype(float)
    cubes = []
    for s in c["src"]:
        C = s["T"]*s2/2*np.array([[1 + s["e1"], s["e2"]], [s["e2"], 1 - s["e1"]]])
        p = np.stack([x - s["x"] - s["fx"], y - s["y"] - s["fy"]], axis=-1) @ M.T
        q = np.einsum("...i,ij,...j->...", p, np.linalg.inv(C), p)
        im = np.exp(-q/2)*abs(np.linalg.det(M))/(2*np.pi*np.sqrt(np.linalg.det(C)))
        cubes.append(np.array([f*np.sqrt(v)*im for f, v in zip(s["flux"], w["lev"])]))
    for b, e in enumerate(exps):
        e.image.array[:, :] *= 0.02      # little noise
        for cube in cubes:
            e.image.array[:, :] += cube[b].astype("f4")
        p = w["psf"][b]
        psf = HolePsf(g, p["dim"], p["T"], p["e1"], p["e2"], p["grad"], False,
                      p["noclone"], p["norm"])
        psf.holes = []
        e.setPsf(psf)
        e.mask.array[:, :] |= 0
    h = c["stamp"]//2
    deadmap = np.zeros((nb, g["ny"], g["nx"]), dtype=bool)
    for s in c["src"]:
        b = s["db"] % nb
        if s["dead"] == "var":
            deadmap[b, max(s["y"] - h, 0):s["y"] + h + 1,
                    max(s["x"] - h, 0):s["x"] + h + 1] = True
        elif s["dead"] == "psf":
            exps[b].getPsf().holes.append(
                (g["x0"] + s["x"] + s["fx"], g["y0"] + s["y"] + s["fy"]))
    for b, e in enumerate(exps):
        e.variance.array[deadmap[b]] = np.inf
    mb = util.get_mbexp(exps)
    cat = L.catalog()
    blends = {}
    box = scl.Box((g["ny"], g["nx"]), (g["y0"], g["x0"]))
    for k, (s, cube) in enumerate(zip(c["src"], cubes)):
        r = cat.addNew(10 + k)
        px, py = g["x0"] + s["x"], g["y0"] + s["y"]
        r.setFootprint(L.footprint([(px, py), (px + 1, py)], [(px, py), (px + 2, py)]))
        r["deblend_nChild"] = 2 if s["parent"] else 0
        if c["scarlet"] and not s["parent"]:
            blends[k] = HierarchicalBlendData({k: BlendData([
                (10 + k, (g["y0"], g["x0"]), cube, (py, px))], box)})
    md = None
    if c["scarlet"]:
        md = ScarletModelData(blends, {"bands": tuple(w["bands"]),
                                       "psf": np.ones((nb, 1, 1)),
                                       "model_psf": np.ones((1, 1))})
        updateCatalogFootprints(md, cat, band=w["bands"][0])
    return w, mb, cat, md, cubes, deadmap


def centroid(s, g):
    d = 0.4 if s["cen"] == "off" else 0.0
    return s["x"] + s["fx"] + d, s["y"] + s["fy"] - d


def check(c, ctx):
    w, mb, cat, md, cubes, deadmap = build(c)
    g, nb = w["g"], len(w["bands"])
    exps = list(mb.singles)
    detexp = afw_image.ExposureF(exps[0], True)
    r = np.random.RandomState(c["seed"])
    detexp.mask.array[:, :] = r.randint(0, 2**8, size=detexp.mask.array.shape)
    DET = afw_image.Mask.getPlaneBitMask("DETECTED")
    before = L.snap(exps)
    dbefore = L.snap([detexp])
    bysrc = {10 + k: s for k, s in enumerate(c["src"])}
    names = None if c["shear"] is None else [w["bands"][i % nb] for i in c["shear"]]
    shear = [i for i, b in enumerate(w["bands"]) if names is None or b in names]
    config = {"pgauss": {"fwhm": c["fwhm"]*max(g["scale"]/0.2, 1)},
              "stamp_size": c["stamp"], "shear_bands": names}
    seen = []

    def hook(rec, exp):
        require(exp is detexp, "measured on something else than the detection image")
        s = bysrc[rec.getId()]
        seen.append(rec.getId())
        if s["cen"] == "nan":
            return geom.Point2D(np.nan, np.nan)
        x, y = centroid(s, g)
        return geom.Point2D(x + g["x0"], y + g["y0"])

    task = get_detect_and_deblend_task().meas
    meas_base.MEASURE_HOOK = hook
    try:
        out = measure(mb, detexp, cat, md, task, config,
                      np.random.RandomState(c["seed"]))
    finally:
        meas_base.MEASURE_HOOK = None
    require(L.same(before, L.snap(exps)), "the exposures were modified")
    require(L.same(dbefore, L.snap([detexp])), "the detection image was modified")
    kids = [k for k in bysrc if not bysrc[k]["parent"]]
    require(seen == kids, "basic measurements of %s, expected once each %s", seen, kids)
    require(get_bmasks(cat, detexp) == [get_bmask(s, detexp) for s in cat], "get_bmasks")
    if not kids:
        require(out is None, "rows without sources")
        ctx.note("nothing")
        return
    require(out is not None and len(out) == len(kids), "%s rows, expected %d",
            None if out is None else len(out), len(kids))
    ctx.note("scarlet" if md is not None else "sdss", "%d bands" % nb)
    h = c["stamp"]//2
    nmeas = 0
    wcs = L.make_wcs(g)
    for k, row in zip(kids, out):
        s = bysrc[k]
        what = "source %d" % k
        x0, y0, x1, y1 = s["x"] - h, s["y"] - h, s["x"] + h, s["y"] + h
        cx, cy = centroid(s, g)
        isnan = s["cen"] == "nan"
        # position
        require(row["stamp_size"] == c["stamp"] and row["row0"] == g["y0"]
                and row["col0"] == g["x0"], "%s: stamp_size, row0 or col0", what)
        ex, ey = (s["x"], s["y"]) if isnan else (cx, cy)
        require(abs(row["col"] - g["x0"] - ex) < 1e-3
                and abs(row["row"] - g["y0"] - ey) < 1e-3, "%s: position (%s, %s), "
                "expected (%s, %s)", what, row["row"], row["col"], ey, ex)
        if isnan:
            require(np.isnan(row["row_diff"]) and np.isnan(row["col_diff"]),
                    "%s: offset without centroid", what)
        else:
            require(abs(row["col_diff"] - (cx - s["x"])) < 1e-3
                    and abs(row["row_diff"] - (cy - s["y"])) < 1e-3,
                    "%s: offset from the peak", what)
            p = wcs.skyToPixel(geom.SpherePoint(row["ra"], row["dec"], geom.degrees))
            require(abs(p.x - g["x0"] - cx) < 1e-3 and abs(p.y - g["y0"] - cy) < 1e-3,
                    "%s: sky position", what)
        require(row["bmask"] == dbefore[0][1][s["y"], s["x"]] & ~DET,
                "%s: bmask %s, pixel has %s", what, row["bmask"],
                dbefore[0][1][s["y"], s["x"]])
        require(row["psfrec_flags"] == procflags.NO_ATTEMPT and row["ormask"] == 0
                and np.isnan(row["mfrac"]) and np.all(np.isnan(row["psfrec_g"]))
                and np.isnan(row["psfrec_T"]), "%s: columns that are filled later", what)
        # what can be measured
        inside = x0 >= 0 and y0 >= 0 and x1 < g["nx"] and y1 < g["ny"]
        sl = np.s_[max(y0, 0):y1+1, max(x0, 0):x1+1]
        dead = [np.isinf(np.median(before[b][2][sl])) for b in range(nb)]
        nopsf = [w["psf"][b]["grad"] > 0 if isnan else any(
            np.hypot(cx + g["x0"] - u, cy + g["y0"] - v) < 1.5
            for u, v in before[b][3].holes) for b in range(nb)]
        if not inside:
            flags = procflags.EDGE_HIT
        else:
            flags = 0
            for b in range(nb):
                if dead[b] or nopsf[b]:
                    flags = procflags.ZERO_WEIGHTS if dead[b] else procflags.NO_DATA
                    break
        require(row["stamp_flags"] == flags, "%s: stamp_flags %s, expected %s", what,
                row["stamp_flags"], flags)
        if flags:
            ctx.note("flagged")
            for n in out.dtype.names:
                if n.startswith(("gauss_", "pgauss_")):
                    v = row[n]
                    if n in ("gauss_flags", "pgauss_flags", "gauss_psf_flags",
                             "gauss_obj_flags", "pgauss_obj_flags"):
                        require(v == procflags.NO_ATTEMPT, "%s: %s is %s", what, n, v)
                    elif v.dtype.kind == "f":
                        require(np.all(np.isnan(v)), "%s: %s of a source that was not "
                                "measured is %s", what, n, v)
            continue
        if np.any(deadmap[(slice(None),) + sl]) or isnan:
            continue
        nmeas += 1
        # an independent stamp
        mbobs = ngmix.MultiBandObsList()
        M = L.uv_matrix(g)
        for b in range(nb):
            im = before[b][0].astype(float)
            if md is not None:
                for j, cube in enumerate(cubes):
                    if 10 + j != k and not bysrc[10 + j]["parent"]:
                        im = im - cube[b]
            im = im[sl].copy()
            ps = before[b][3].array(g["x0"] + cx, g["y0"] + cy)

            def jac(xx, yy):
                return ngmix.Jacobian(x=xx, y=yy, dudx=M[0, 0], dudy=M[0, 1],
                                      dvdx=M[1, 0], dvdy=M[1, 1])
            ol = ngmix.ObsList()
            ol.append(ngmix.Observation(
                im, weight=np.full(im.shape, 1.0/w["lev"][b]),
                bmask=before[b][1][sl].copy(), jacobian=jac(cx - x0, cy - y0),
                psf=ngmix.Observation(ps, weight=np.full(ps.shape, 1/(1e-4*ps.max())**2),
                                      jacobian=jac(10, 10))))
            mbobs.append(ol)
        rng = np.random.RandomState(3)
        pg = fit_mbobs_wavg(
            mbobs=mbobs, bmask_flags=0,
            fitter=ngmix.prepsfmom.PGaussMom(fwhm=config["pgauss"]["fwhm"]))
        runner = ngmix.runners.PSFRunner(
            fitter=ngmix.admom.AdmomFitter(rng=rng),
            guesser=ngmix.guessers.GMixPSFGuesser(rng=rng, ngauss=1,
                                                  guess_from_moms=True), ntry=4)
        ga = fit_mbobs_gauss(mbobs=mbobs, bmask_flags=0, psf_runner=runner, rng=rng,
                             shear_bands=shear)
        # the fit ends early, at a point that depends on the random guess
        alone = not any(
            10 + j != k and (md is None or o["parent"])
            and max(abs(o["x"] - s["x"]), abs(o["y"] - s["y"])) < h + 12
            for j, o in enumerate(c["src"]))
        # and that of a blend may end in another minimum
        fits = (pg, "pgauss_", 2e-3), (ga, "gauss_", 0.02)
        for ref, front, tol0 in fits if alone else fits[:1]:
            for n in ref.dtype.names:
                tol = tol0
                if not n.startswith(front) or n not in out.dtype.names:
                    continue
                a, b = np.atleast_1d(row[n]), np.atleast_1d(ref[n][0])
                if a.dtype.kind in "iu":
                    require(np.array_equal(a, b), "%s: %s is %s, expected %s", what, n,
                            a, b)
                    continue
                if ref[front + "flags"][0] != 0:
                    continue
                require(np.array_equal(np.isnan(a), np.isnan(b)), "%s: %s is %s, "
                        "expected %s", what, n, a, b)
                scale = 1.0 if "_g" in n and "cov" not in n else np.nanmax(np.abs(b)) \
                    if np.any(np.isfinite(b)) else 1.0
                ok = np.isfinite(b)
                if n.endswith(("_err", "_cov", "_s2n", "_ratio")):
                    tol = max(tol, 0.05)
                require(np.all(np.abs(a - b)[ok] <= tol*scale + 1e-12),
                        "%s: %s is %s, measuring its stamp gives %s", what, n, a, b)
        need = set(ga.dtype.names) | {
            n for n in pg.dtype.names if "psf" not in n and "_g" not in n[6:]}
        require(need <= set(out.dtype.names), "missing columns %s",
                need - set(out.dtype.names))
        lab = "".join("%d" % b for b in shear)
        require(row["shear_bands"] == lab, "shear bands %r, expected %r",
                row["shear_bands"], lab)
    if nmeas > 1:
        ctx.nontrivial()
        ctx.note("measured")


SUBS = [Sub("rows", cases(), check, 5000, 40000)]
