"""P27: detection and deblending of LSST exposures"""
import copy

import numpy as np
from hypothesis import strategies as st

import lsst.afw.image as afw_image
import lsst.geom as geom
import lsst.meas.algorithms as algorithms
import lsst.meas.deblender as deblender
import lsst.meas.extensions.scarlet as scarlet
import lsst.scarlet.lite as scl
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import Sub, require
from lsst.afw.table import SourceCatalog
from metadetect.lsst import util
from metadetect.lsst.measure import get_detect_and_deblend_task

PROPERTY = "P27"
RULE = (
    "1-4 bands with the same geometry but different noise, variance maps, masks and PSFs, "
    "also without any data, with 0-4 detected sources of 1-3 peaks, both deblenders, any "
    "threshold and overrides; or real detections of 0-4 bright sources; now and then "
    "several times larger, more or brighter; non-trivial: two "
    "bands with data and a detection; distinct by full case"
)


@st.composite
def cases(draw):
    w = draw(L.mbexp_st(1, 4, 12, 30))
    g = w["g"]
    src = [[[draw(st.integers(0, g["nx"] - 1)), draw(st.integers(0, g["ny"] - 1))]
            for _ in range(draw(st.integers(1, 3)))]
           for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, 4])))]
    over = draw(st.one_of(st.none(), st.fixed_dictionaries({}, optional={
        "seed": st.integers(0, 99),
        "detect": st.fixed_dictionaries({}, optional={
            "minPixels": st.integers(1, 9), "nSigmaToGrow": fl(1, 4),
            "thresholdValue": fl(2, 30)}),
    })))
    return {
        "world": w, "src": src, "over": over,
        "deblender": draw(st.sampled_from(["sdss", "sdss", "scarlet"])),
        "thresh": draw(st.sampled_from(["no", "no", None, 3.5, 8.0])),
        "rng": draw(st.booleans()),
        "dead": draw(st.sampled_from(["no"]*6 + ["all", "one"])),
    }


def coadd_model(w, before):
    """image, variance, mask of the mean of the bands"""
    ims = [s[0].astype(float) for s in before]
    vs = [s[2].astype(float) for s in before]
    wt = [1/np.median(v[v > 0]) for v in vs]
    if np.sum(wt) == 0:
        return None
    allv = np.all([v > 0 for v in vs], axis=0)
    with np.errstate(divide="ignore"):
        iv = np.sum([np.where(v > 0, 1/v, 0) for v in vs], axis=0)
    im = sum(a*b for a, b in zip(wt, ims))/sum(wt)
    return im, iv, np.bitwise_or.reduce([s[1] for s in before]), allv, wt


def same_source(a, b):
    fa, fb = a.getFootprint(), b.getFootprint()
    sa, sb = fa.getSpans(), fb.getSpans()
    return (a.getId() == b.getId() and a.getParent() == b.getParent()
            and a.get("deblend_nChild") == b.get("deblend_nChild")
            and np.array_equal(sa.x, sb.x) and np.array_equal(sa.y, sb.y)
            and [tuple(p.getI()) for p in fa.getPeaks()]
            == [tuple(p.getI()) for p in fb.getPeaks()])


class Hooks:
    """record and answer the calls of the stack"""
    def __init__(self, c):
        self.c, self.log = c, []
        g = c["world"]["g"]
        self.src = [[(x + g["x0"], y + g["y0"]) for x, y in s] for s in c["src"]]

    def __enter__(self):
        algorithms.DETECT_HOOK = self.detect
        deblender.DEBLEND_HOOK = self.deblend
        scarlet.SCARLET_HOOK = self.scarlet
        return self

    def __exit__(self, *a):
        algorithms.DETECT_HOOK = deblender.DEBLEND_HOOK = scarlet.SCARLET_HOOK = None

    def detect(self, table, exp, conf):
        self.log.append(("detect", exp, L.snap([exp]), conf))
        cat = SourceCatalog(table)
        for k, peaks in enumerate(self.src):
            r = cat.addNew(100 + 10*k)
            r.setFootprint(L.footprint(
                sorted({(x + d, y) for x, y in peaks for d in (0, 1)}), peaks))
        for x, y in (p for s in self.src for p in s):
            g = self.c["world"]["g"]
            exp.mask.array[y - g["y0"], x - g["x0"]] |= \
                afw_image.Mask.getPlaneBitMask("DETECTED")
        self.cat = cat
        return cat

    def deblend(self, exp, sources):
        self.log.append(("deblend", exp, sources))
        for k, peaks in enumerate(self.src):
            par = sources.find(100 + 10*k)
            if len(peaks) == 1:
                par["deblend_nChild"] = 0
                continue
            par["deblend_nChild"] = len(peaks)
            for j, p in enumerate(peaks):
                r = sources.addNew(101 + 10*k + j)
                r.setParent(100 + 10*k)
                r["deblend_nChild"] = 0
                r.setFootprint(L.footprint([p], [p]))

    def scarlet(self, mexp, sources):
        self.log.append(("scarlet", mexp, sources,
                         L.snap(list(mexp.singles)), tuple(mexp.bands)))
        g = self.c["world"]["g"]
        bands = tuple(mexp.bands)
        cat = SourceCatalog(sources.table)
        blends = {}
        box = scl.Box((g["ny"], g["nx"]), (g["y0"], g["x0"]))
        for k, peaks in enumerate(self.src):
            par = cat.addNew(500 + 10*k)
            par.setFootprint(sources.find(100 + 10*k).getFootprint())
            par["deblend_nChild"] = len(peaks)
            ss = []
            for j, p in enumerate(peaks):
                r = cat.addNew(501 + 10*k + j)
                r.setParent(500 + 10*k)
                r["deblend_nChild"] = 0
                cube = np.full((len(bands), 1, 1), 1.0)
                ss.append((501 + 10*k + j, (p[1], p[0]), cube, (p[1], p[0])))
            blends[500 + 10*k] = scarlet.HierarchicalBlendData(
                {500 + 10*k: scarlet.BlendData(ss, box)})
        self.md = scarlet.ScarletModelData(blends, {
            "bands": bands, "psf": np.ones((len(bands), 1, 1)),
            "model_psf": np.ones((1, 1))})
        self.scat = cat
        return self.md, cat


def make_task(c):
    over = copy.deepcopy(c["over"])
    kw = {"deblender": c["deblender"]}
    if over is not None:
        kw["config"] = over
    if c["thresh"] != "no":
        kw["thresh"] = c["thresh"]
    rng = np.random.RandomState(5)
    if c["rng"]:
        kw["rng"] = rng
    task = get_detect_and_deblend_task(**kw)
    require(over == c["over"], "the caller's configuration was modified")
    if c["rng"]:
        require(task.rng is rng, "the generator given is not used")
    else:
        seed = (c["over"] or {}).get("seed", 42)
        require(task.rng.randint(2**31) == np.random.RandomState(seed).randint(2**31),
                "the generator does not follow from the seed")
    return task


def check(c, ctx):
    w = c["world"]
    g = w["g"]
    exps = L.build_exps(w)
    nb = len(exps)
    for i, e in enumerate(exps):
        if c["dead"] == "all" or (c["dead"] == "one" and i == nb - 1):
            e.variance.array[:, :] = np.inf
    mb = util.get_mbexp(exps)
    singles = list(mb.singles)
    before = L.snap(singles)
    task = make_task(c)
    DET = afw_image.Mask.getPlaneBitMask("DETECTED")
    with Hooks(c) as h:
        res = task.run(mbexp=mb)
    require(isinstance(res, tuple) and len(res) == 3, "run does not return three items")
    sources, detexp, md = res
    model = coadd_model(w, before)
    after = L.snap(singles)
    for b, a in zip(before, after):
        if nb == 1:
            # detection marks its pixels; nothing else may change
            a = (a[0], np.where((a[1] ^ b[1]) & ~DET, a[1], b[1])) + a[2:]
        require(L.same([b], [a]), "the exposures were modified")
    if model is None and nb > 1:
        require(len(sources) == 0 and detexp is None and md is None and not h.log,
                "there is no data, but something came back: %s sources", len(sources))
        ctx.note("no data")
        return
    # what detection saw
    det = [x for x in h.log if x[0] == "detect"]
    require(len(det) == 1, "%d detections", len(det))
    dexp, (snap,), conf = det[0][1:]
    require(isinstance(dexp, afw_image.ExposureF), "detection on a %s", type(dexp))
    require(dexp is detexp, "the exposure returned is not that of the detection")
    if nb == 1:
        b = before[0]
        require(np.allclose(snap[0], b[0], rtol=1e-6) and np.array_equal(snap[1], b[1])
                and np.allclose(snap[2], b[2], rtol=1e-6), "detection did not see the "
                "pixels of the only band")
        require(snap[4] is b[4] and snap[5] == b[5], "WCS or origin")
        cx, cy = L.center_of(g)
        require(np.allclose(detexp.getPsf().computeKernelImage(
            geom.Point2D(cx, cy)).array, b[3].array(cx, cy)), "PSF")
    else:
        im, iv, om, allv, wt = model
        scale = max(np.abs(s[0]).max() for s in before)
        require(np.allclose(snap[0][allv], im[allv], atol=1e-5*scale),
                "detection did not see the weighted mean of the bands")
        with np.errstate(divide="ignore"):
            require(np.allclose(snap[2], 1/iv, rtol=1e-4), "variance of the mean")
        require(np.array_equal(snap[1], om), "mask of the mean")
        require(snap[4] is before[0][4] and snap[5] == before[0][5], "WCS or origin")
    # with which settings
    od = (c["over"] or {}).get("detect", {})
    thr = c["thresh"] if c["thresh"] not in ("no", None) else (
        5.0 if c["thresh"] == "no" else od.get("thresholdValue", 5.0))
    require(conf.thresholdValue == thr, "threshold %s, expected %s", conf.thresholdValue,
            thr)
    for k in ("minPixels", "nSigmaToGrow"):
        want = od.get(k, {"minPixels": 1, "nSigmaToGrow": 2.4}[k])
        require(getattr(conf, k) == want, "%s is %s", k, getattr(conf, k))
    require(set(conf.excludeMaskPlanes) == {"EDGE", "NO_DATA", "BRIGHT"},
            "planes without detection: %s", list(conf.excludeMaskPlanes))
    require(set(conf.statsMask) == {"BAD", "EDGE", "DETECTED", "DETECTED_NEGATIVE", "NO_DATA",
                                    "BRIGHT"}, "planes without statistics: %s",
            list(conf.statsMask))
    require(conf.thresholdType == "stdev" and not conf.reEstimateBackground,
            "threshold type or background")
    # what came out
    if nb > 1 and c["src"] and (c["dead"] == "no"):
        ctx.nontrivial()
    ctx.note(c["deblender"], "%d bands" % nb)
    npk = [len(s) for s in c["src"]]
    if c["deblender"] == "sdss":
        require(md is None, "models from the sdss deblender")
        deb = [x for x in h.log if x[0] != "detect"]
        require(len(deb) == 1 and deb[0][0] == "deblend", "deblended %s",
                [x[0] for x in deb])
        require(deb[0][1] is dexp, "deblending of another image")
        require([s.getId() for s in deb[0][2]][:len(npk)] == [
            100 + 10*k for k in range(len(npk))], "deblending of other sources")
        ids = [100 + 10*k for k in range(len(npk))]
        for k, n in enumerate(npk):
            if n > 1:
                ids += [101 + 10*k + j for j in range(n)]
    else:
        sc = [x for x in h.log if x[0] != "detect"]
        require(len(sc) == 1 and sc[0][0] == "scarlet", "deblended %s",
                [x[0] for x in sc])
        sn = sc[0][3]
        require(sc[0][4] == tuple(mb.bands), "bands %s", sc[0][4])
        for b, a in zip(before, sn):
            require(np.allclose(a[0], b[0], rtol=1e-6)
                    and np.allclose(a[2], b[2], rtol=1e-6), "scarlet did not see the "
                    "given exposures")
        require([s.getId() for s in sc[0][2]] == [100 + 10*k for k in range(len(npk))],
                "scarlet got other sources")
        require(md is h.md, "models are not those of scarlet")
        ids = []
        for k, n in enumerate(npk):
            ids += [500 + 10*k] + [501 + 10*k + j for j in range(n)]
        for s in sources:
            if s.getId() % 10:
                k, j = (s.getId() - 500)//10, s.getId() % 10 - 1
                fp = s.getFootprint()
                require(fp is not None and [tuple(p.getI()) for p in fp.getPeaks()]
                        == [h.src[k][j]], "a child has not got its footprint")
    require([s.getId() for s in sources] == ids, "sources %s, expected %s",
            [s.getId() for s in sources], ids)


@st.composite
def real_cases(draw):
    w = draw(L.mbexp_st(1, 3, 50, 70, var="const"))
    w["mask"] = 0.0
    for p in w["psf"]:
        p.update(dim=15, T=draw(fl(4.0, 6.0)), grad=0.0, norm=1.0)
    g = w["g"]
    src = []
    for _ in range(draw(st.integers(0, 3))):
        x, y = draw(st.integers(10, g["nx"] - 11)), draw(st.integers(10, g["ny"] - 11))
        if all(max(abs(x - a), abs(y - b)) > 18 for a, b, _ in src):
            src.append((x, y, draw(st.booleans())))
    return {"world": w, "src": src, "low": draw(fl(4, 8)), "high": draw(fl(150, 200)),
            "deblender": draw(st.sampled_from(["sdss", "scarlet"])), "seed": draw(seeds),
            "hole": draw(st.sampled_from([None, None, 0, 1]))}


def check_real(c, ctx):
    """sources between the thresholds, found with one and not with the other"""
    w = c["world"]
    g = w["g"]
    w = dict(w, psf=[dict(p, T=p["T"]*g["scale"]**2) for p in w["psf"]])
    exps = L.build_exps(w)
    y, x = np.mgrid[:g["ny"], :g["nx"]]
    EDGE = afw_image.Mask.getPlaneBitMask("EDGE")
    hidden = None
    for e, lev in zip(exps, w["lev"]):
        e.image.array[:, :] -= e.image.array.mean()
        for px, py, bright in c["src"]:
            # per-band signal to noise: the mean of n bands has more
            a = (900 if bright else 14)*np.sqrt(lev)
            e.image.array[:, :] += a*np.exp(-0.5*((x - px)**2 + (y - py)**2)/3.0)
    if c["hole"] is not None and len(c["src"]) > c["hole"]:
        hidden = c["src"][c["hole"]]
        m = np.hypot(x - hidden[0], y - hidden[1]) < 9
        exps[-1].mask.array[m] |= EDGE
    mb = util.get_mbexp(exps)
    for thr, keep in ((c["low"], c["src"]), (c["high"], [s for s in c["src"] if s[2]])):
        m = mb if thr == c["low"] else util.copy_mbexp(mb)
        task = get_detect_and_deblend_task(thresh=thr, deblender=c["deblender"])
        sources, detexp, md = task.run(mbexp=m)
        kids = [s for s in sources if s.get("deblend_nChild") == 0]
        got = sorted((p.x - g["x0"], p.y - g["y0"]) for p in (
            s.getFootprint().getPeaks()[0].getI() for s in kids))
        keep = [s for s in keep if s is not hidden]
        for s in keep:
            require(any(max(abs(s[0] - a), abs(s[1] - b)) <= 1 for a, b in got),
                    "the source at %s is not found at threshold %s: %s", s[:2], thr, got)
        if thr == c["high"]:
            for a, b in got:
                require(any(max(abs(s[0] - a), abs(s[1] - b)) <= 6 for s in keep),
                        "a detection at %s at threshold %s: there is nothing, or nothing "
                        "this bright", (a, b), thr)
        for a, b in got:
            require(hidden is None or np.hypot(a - hidden[0], b - hidden[1]) >= 9,
                    "a detection in pixels without detection")
        require((md is None) == (c["deblender"] == "sdss"), "model data")
    if len(c["src"]) > 1:
        ctx.nontrivial()


SUBS = [Sub("calls", cases(), check, 3000, 30000),
        Sub("detections", real_cases(), check_real, 600, 4000)]
