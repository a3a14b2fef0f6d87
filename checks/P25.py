"""P25: sky subtraction"""
import copy

import numpy as np
from hypothesis import strategies as st

import lsst.afw.image as afw_image
import lsst.meas.algorithms as alg
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import Sub, require
from lsst.pex.exceptions import RuntimeError as LSSTRuntimeError
from lsst.pipe.base import TaskError
from metadetect.lsst import skysub, util

PROPERTY = "P25"
RULE = (
    "1-4 bands, 1-4 iterations with any measured sky levels, thresholds given directly, "
    "in the configuration or not at all, and background or detection failures at any "
    "call; and noisy images with sources on any sky level; now and then "
    "several times larger, more or brighter; non-trivial: two iterations "
    "or more, or two bands; distinct by full case"
)
IGNORED = {"BAD", "EDGE", "DETECTED", "DETECTED_NEGATIVE", "NO_DATA", "BRIGHT"}

calls = st.fixed_dictionaries({
    "world": L.mbexp_st(1, 4, 8, 20),
    "api": st.sampled_from(["mb", "mb", "one", "one", "det"]),
    "niter": st.one_of(st.none(), st.integers(-1, 4), st.integers(1, 4)),
    "thresh": st.one_of(st.none(), fl(1, 20)), "cthresh": st.one_of(st.none(), fl(1, 20)),
    "sky": st.lists(fl(-50, 200), min_size=16, max_size=16),
    "fail": st.one_of(st.none(), st.none(), st.tuples(
        st.sampled_from(["back", "detect"]), st.integers(0, 7),
        st.sampled_from(["lsst", "task"])).map(list)),
    "minpix": st.one_of(st.none(), st.integers(1, 9)),
    "seed": seeds,
})


def check_calls(c, ctx):
    w = c["world"]
    api = c["api"]
    exps = L.build_exps(w)
    if api == "mb":
        mb = util.get_mbexp(exps)
        exps = list(mb.singles)
    else:
        exps = exps[:1]
    before = L.snap(exps)
    log = []
    state = {"back": 0, "detect": 0}
    bright = afw_image.Mask.addMaskPlane("BRIGHT")
    _ = bright
    DET = afw_image.Mask.getPlaneBitMask("DETECTED")

    def maybe_fail(kind):
        k = state[kind]
        state[kind] += 1
        f = c["fail"]
        if f is not None and f[0] == kind and f[1] == k:
            raise (LSSTRuntimeError if f[2] == "lsst" else TaskError)("no good pixels")

    def back(exp, config):
        maybe_fail("back")
        v = c["sky"][len([q for q in log if q[0] == "back"]) % len(c["sky"])]
        log.append(("back", which(exp), v, set(config.ignoredPixelMask),
                    (exp.mask.array & DET).astype(bool)))
        return v

    def detect(table, exp, config):
        maybe_fail("detect")
        log.append(("detect", which(exp), config.thresholdValue,
                    config.reEstimateBackground, config.minPixels))
        # every iteration finds one more pixel
        m = exp.mask.array
        m[0, len(log) % m.shape[1]] |= DET
        cat = L.catalog(table)
        cat.addNew(len(log))
        return cat

    def which(exp):
        for i, e in enumerate(exps):
            if np.shares_memory(e.image.array, exp.image.array):
                return i
        require(False, "sky subtraction works on a copy")

    conf = {}
    niter = c["niter"]
    if api == "mb":
        it = {}
        if niter is not None:
            it["niter"] = niter
        if c["cthresh"] is not None:
            it["detect"] = {"thresholdValue": c["cthresh"]}
        if c["minpix"] is not None:
            it.setdefault("detect", {})["minPixels"] = c["minpix"]
        if it:
            conf = {"iterate_detection_and_skysub": it}
        kw = {} if c["thresh"] is None else {"thresh": c["thresh"]}
        thresh = c["thresh"] if c["thresh"] is not None else 5.0
    else:
        if c["minpix"] is not None:
            conf["detect"] = {"minPixels": c["minpix"]}
        kw = {} if niter is None else {"niter": niter}
        thresh = kw["thresh"] = c["thresh"] if c["thresh"] is not None else 7.0
    niter = 2 if niter is None else niter
    given = copy.deepcopy(conf)
    if conf or c["seed"] % 2:
        kw["config"] = conf
    alg.BACK_HOOK, alg.DETECT_HOOK = back, detect
    result = None
    try:
        if api == "mb":
            skysub.subtract_sky_mbexp(mb, **kw)
        elif api == "one":
            result = skysub.iterate_detection_and_skysub(exps[0], **kw)
        else:
            niter = 1
            result = skysub.determine_and_subtract_sky(exps[0])
    except ValueError:
        require(niter < 1 and not log, "a legal number of iterations was refused")
        require(L.same(before, L.snap(exps)), "refused, but the image changed")
        ctx.note("refused")
        return
    except (LSSTRuntimeError, TaskError):
        require(api == "det", "a failure was not caught")
        return
    finally:
        alg.BACK_HOOK = alg.DETECT_HOOK = None
    require(conf == given, "the caller's configuration was modified")
    if niter < 1:
        require(False, "%d iterations were accepted", niter)
    ctx.note(api, "fail" if c["fail"] else "ok")
    if niter > 1 or len(exps) > 1:
        ctx.nontrivial()

    # what should have happened
    pos, nb, nd = 0, 0, 0
    for i, (e, s) in enumerate(zip(exps, before)):
        total, ok = 0.0, True
        seen = np.zeros(s[1].shape, dtype=bool) | ((s[1] & DET) != 0)
        for k in range(niter):
            if c["fail"] and c["fail"][0] == "back" and c["fail"][1] == nb:
                nb += 1
                ok = False
                break
            nb += 1
            require(pos < len(log) and log[pos][:2] == ("back", i),
                    "band %d, iteration %d: no background subtraction: %s", i, k,
                    [q[:2] for q in log])
            require(log[pos][3] == IGNORED, "pixels ignored for the sky: %s", log[pos][3])
            require(np.array_equal(log[pos][4], seen),
                    "the sky does not see the detections of the earlier iterations")
            total += log[pos][2]
            pos += 1
            if api == "det":
                continue
            if c["fail"] and c["fail"][0] == "detect" and c["fail"][1] == nd:
                nd += 1
                ok = False
                break
            nd += 1
            require(pos < len(log) and log[pos][:2] == ("detect", i),
                    "band %d, iteration %d: no detection: %s", i, k,
                    [q[:2] for q in log])
            require(log[pos][2] == thresh, "threshold %s, expected %s", log[pos][2], thresh)
            require(log[pos][3] is False, "detection re-estimates the background")
            require(log[pos][4] == (c["minpix"] or log[pos][4]), "minPixels")
            pos += 1
            seen = seen.copy()
            seen[0, pos % seen.shape[1]] = True
        tol = 1e-5*(np.abs(s[0]).max() + sum(abs(v) for v in c["sky"]))
        require(np.allclose(e.image.array, s[0] - total, atol=tol),
                "band %d: the image does not miss exactly the measured sky", i)
        require(np.array_equal(e.variance.array, s[2])
                and np.array_equal(e.mask.array & ~DET, s[1] & ~DET),
                "band %d: variance or mask changed", i)
        require(e.getPsf() is s[3] and e.getWcs() is s[4], "PSF or WCS changed")
        if ok:
            bg = e.getMetadata().get("BGMEAN")
            require(bg is not None and abs(bg - total) < 1e-8*(1 + abs(total)),
                    "band %d: recorded sky %s, subtracted %s", i, bg, total)
        if api == "one":
            if ok:
                got = [r.getId() for r in result.sources]
                require(got == [pos], "not the result of the last detection: %s", got)
            else:
                require(result is None, "a result after a failure")
    require(pos == len(log), "more calls than iterations")


e2e = st.fixed_dictionaries({
    "world": L.mbexp_st(1, 2, 40, 70, var="const"), "sky": fl(-100, 1000),
    "nsrc": st.integers(0, 4), "seed": seeds, "shift": fl(1, 500),
})


def check_real(c, ctx):
    w = dict(c["world"], double=True, mask=0.0)
    g = w["g"]

    def make(sky):
        mb = util.get_mbexp(L.build_exps(w))
        r = np.random.RandomState(c["seed"])
        y, x = np.mgrid[:g["ny"], :g["nx"]]
        src = sum([np.exp(-0.5*((x - r.uniform(5, g["nx"] - 5))**2
                                + (y - r.uniform(5, g["ny"] - 5))**2)/2.0)
                   for _ in range(c["nsrc"])], np.zeros((g["ny"], g["nx"])))
        for lev, e in zip(w["lev"], mb.singles):
            e.image.array[:, :] = r.normal(size=src.shape)*np.sqrt(lev) \
                + 50*np.sqrt(lev)*src + sky*np.sqrt(lev)
        return mb, src

    mb, src = make(c["sky"])
    mb2, _ = make(c["sky"] + c["shift"])
    orig = [e.image.array.copy() for e in mb.singles]
    skysub.subtract_sky_mbexp(mb)
    skysub.subtract_sky_mbexp(mb2)
    ctx.nontrivial()
    empty = src < 1e-4
    n = empty.sum()
    for lev, a, b, o, band in zip(w["lev"], mb.singles, mb2.singles, orig, w["bands"]):
        s = np.sqrt(lev)
        m = a.image.array[empty].mean()
        require(abs(m) < s*(7/np.sqrt(n) + 0.15), "%s: %g sigma of sky left", band, m/s)
        require(np.allclose(o - a.image.array, a.getMetadata()["BGMEAN"], atol=1e-6*s*(
            1 + abs(c["sky"]))), "%s: BGMEAN is not the sky that was subtracted", band)
        require(np.allclose(a.image.array, b.image.array,
                            atol=1e-6*s*(abs(c["sky"]) + c["shift"] + 1)),
                "%s: the result depends on the level of the sky", band)
        require(np.array_equal(a.mask.array, b.mask.array), "%s: detections depend on the "
                "level of the sky", band)


SUBS = [Sub("calls", calls, check_calls, 5000, 60000),
        Sub("images", e2e, check_real, 800, 8000)]
