"""P13: what a metadetect run returns"""
import copy

import numpy as np
import ngmix
from hypothesis import strategies as st

from lib import driver as D
from lib.harness import Sub, require
from lib.obs import PLANES
from metadetect import do_metadetect
from metadetect import procflags as pf
from metadetect.detect import CatalogMEDSifier
from metadetect.fitting import fit_mbobs_list_joint, fit_mbobs_list_wavg
from metadetect.metadetect import Metadetect

PROPERTY = "P13"
RULE = (
    "1-4 band worlds of 28-44 pixel images with general WCS, masks, masked-fraction "
    "planes, arbitrary catalogues of 0-4 objects per sheared image (faked "
    "detection), 1-3 fitters, 0-3 shear-band and detection-band combinations, any "
    "metacal types, and faults (band without weight, fully masked band, fully masked "
    "area, failing metacal, bad PSF); now and then "
    "several times larger, more or brighter; non-trivial: at least one object measured in a "
    "run with two combinations, fitters or detection sets, or a run without result; "
    "distinct by full case"
)
ANNOT = {"sx_row", "sx_col", "sx_row_noshear", "sx_col_noshear", "ormask", "mfrac",
         "bmask", "mfrac_img", "ormask_noshear", "mfrac_noshear", "bmask_noshear",
         "det_bands", "psfrec_flags", "psfrec_g", "psfrec_T"}


def planes_of(mb):
    return [{n: np.array(getattr(ol[0], n)) for n in PLANES if hasattr(ol[0], n)}
            for ol in mb]


def same_planes(a, b):
    return all(set(x) == set(y) and all(np.array_equal(x[n], y[n]) for n in x)
               for x, y in zip(a, b))


def expect_none(w, mbobs):
    """why nothing can be measured, or None"""
    nodet = w["conf"].get("nodet_flags", 0)
    wts, ms = [], []
    for ol in mbobs:
        o = ol[0]
        good = o.weight > 0
        if not good.any():
            return "band without weight"
        if np.all(o.bmask & nodet):
            return "fully masked band"
        wts.append(np.median(o.weight[good]))
        ms.append(o.mfrac if o.has_mfrac() else np.zeros(o.image.shape))
    m = sum(a*b for a, b in zip(wts, ms))/sum(wts)
    if np.all(m >= 1):
        return "fully masked area"
    if np.all(np.abs(m - 1) < 1e-9):
        return "ambiguous"
    if w["fault"] == "metacal":
        return "metacal failed"
    return None


def run(w, mbobs, world, config):
    rng = np.random.RandomState(w["seed"])
    world.rng = rng
    kw = {}
    if w["shear"] is not None:
        kw["shear_band_combs"] = w["shear"]
    if w["det"] is not None:
        kw["det_band_combs"] = w["det"]
    return world.run(lambda: do_metadetect(config, mbobs, rng, **kw))


def expected_fits(w, world, t, i, mbobs=None, sub=None):
    """[(prefix, table or None, exact)] for combination i of type t"""
    cat = D.catalog(w, t, world.det[i])
    if sub is not None:
        cat = cat[sub:sub+1]
    if cat.size == 0:
        return cat, None
    mb = world.fake(0)[t] if mbobs is None else mbobs
    box = D.boxes(w, cat)
    mbl = CatalogMEDSifier(mb, cat["x"], cat["y"], box).get_multiband_meds() \
        .get_mbobs_list(weight_type="weight")
    out = []
    for f in w["fitters"]:
        kw = dict(mbobs_list=mbl, bmask_flags=w["conf"].get("bmask_flags", 0),
                  shear_bands=world.shear[i], symmetrize=f.get("symmetrize", True))
        with np.errstate(all="ignore"):
            if f["model"] == "am":
                r = fit_mbobs_list_joint(fitter_name="am",
                                         rng=np.random.RandomState(5), **kw)
            else:
                r = fit_mbobs_list_wavg(fitter=D.make_fitter(f), fwhm_reg=f["weight"].get(
                    "fwhm_reg", 0), **kw)
        out.append((D.fitter_kind(f), r))
    return cat, out


def compare_fits(rows, exp, what):
    for kind, tab in exp:
        for n in tab.dtype.names:
            require(n in rows.dtype.names, "%s: column %s is missing", what, n)
            a, b = rows[n], tab[n]
            if kind == "am" and n != "shear_bands":
                # iterative fits of noisy objects depend on the random start
                ok = (rows["am_psf_flags"] == 0) & (tab["am_psf_flags"] == 0)
                if n in ("am_psf_g", "am_psf_T"):
                    require(np.allclose(a[ok], b[ok], rtol=0.01, atol=0.01),
                            "%s: %s is %s, expected %s", what, n, a, b)
                elif n == "am_flags":
                    bad = pf.EDGE_HIT | pf.MISSING_BAND | pf.ZERO_WEIGHTS \
                        | pf.INCONSISTENT_BANDS | pf.NO_ATTEMPT
                    require(np.array_equal(a & bad, b & bad),
                            "%s: %s is %s, expected %s", what, n, a, b)
                continue
            same = np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True) \
                if a.dtype.kind == "f" else np.array_equal(a, b)
            require(same, "%s: %s is %s, measuring the stamps gives %s", what, n, a, b)


def check(w, ctx):
    mbobs = D.build_mbobs(w)
    before = planes_of(mbobs)
    world = D.World(w, mbobs)
    config = copy.deepcopy(w["conf"])
    why = expect_none(w, mbobs)
    if why == "ambiguous":
        return
    res = run(w, mbobs, world, config)
    require(same_planes(before, planes_of(mbobs)), "the input images were modified")
    require(config == w["conf"], "the caller's configuration was modified: %s", config)
    if why is not None:
        ctx.nontrivial()
        ctx.note(why)
        require(res is None, "%s: a result was returned", why)
        return
    require(res is not None, "no result although a measurement is possible")
    require(set(world.types) <= set(res), "types %s, expected %s", set(res),
            world.types)
    for _, kw in world.mcal_calls:
        require(kw["rng"] is world.rng, "metacal got another random state")
        m = w["conf"]["metacal"]
        for n in ("psf", "step", "use_noise_image"):
            if n in m:
                require(kw[n] == m[n], "metacal setting %s not passed on", n)
    require(len(world.mcal_calls) >= 1, "metacal did not run")
    ncomb = len(world.shear)
    for t in res:
        if t not in world.types:
            require(res[t] is None, "unrequested type %s has a table", t)
            continue
        exps = [expected_fits(w, world, t, i) for i in range(ncomb)]
        n = sum(c.size for c, _ in exps)
        if n == 0:
            require(res[t] is None, "%s: nothing was found but there is a table", t)
            ctx.note("empty type")
            continue
        rows = res[t]
        require(rows is not None and rows.shape == (n,), "%s: %s rows, %d found",
                t, None if rows is None else rows.shape, n)
        names = set(ANNOT)
        pos = 0
        for i, (cat, exp) in enumerate(exps):
            if cat.size == 0:
                continue
            r = rows[pos:pos+cat.size]
            pos += cat.size
            what = "%s, shear bands %s" % (t, world.shear[i])
            compare_fits(r, exp, what)
            for _, tab in exp:
                names |= set(tab.dtype.names)
            lab = "".join(str(b) for b in sorted(world.shear[i]))
            require(all(str(x) == lab for x in r["shear_bands"]),
                    "%s: shear_bands %s", what, r["shear_bands"])
            lab = "".join(str(b) for b in sorted(world.det[i]))
            require(all(str(x) == lab for x in r["det_bands"]),
                    "%s: det_bands %s, expected %s", what, r["det_bands"], lab)
            require(np.allclose(r["sx_col"], cat["x"], atol=1e-3)
                    and np.allclose(r["sx_row"], cat["y"], atol=1e-3),
                    "%s: positions are not those detected", what)
        require(set(rows.dtype.names) == names, "%s: columns differ by %s", t,
                set(rows.dtype.names) ^ names)
        ctx.note("measured")
        if ncomb > 1 or len(w["fitters"]) > 1 or world.det != world.shear:
            ctx.nontrivial()


# configuration errors -----------------------------------------------------
bad_st = st.fixed_dictionaries({
    "w": D.world_st(joint=False, faults=False),
    "bad": st.sampled_from(["no_metacal", "no_meds", "both_model", "both_weight",
                            "both_symmetrize", "both_coadd", "model", "list_model",
                            "color_func", "color_mbobs", "early"]),
})


def check_bad(c, ctx):
    w, bad = c["w"], c["bad"]
    conf = copy.deepcopy(w["conf"])
    fitters = copy.deepcopy(w["fitters"])
    for k in ("model", "weight", "symmetrize", "fitters"):
        conf.pop(k, None)
    kw, exc = {}, RuntimeError
    conf["fitters"] = fitters
    if bad == "no_metacal":
        del conf["metacal"]
        exc = (AssertionError, KeyError, ValueError, RuntimeError)
    elif bad == "no_meds":
        del conf["meds"]
        exc = (AssertionError, KeyError, ValueError, RuntimeError)
    elif bad.startswith("both"):
        k = bad[5:]
        conf[k] = {"model": "wmom", "weight": {"fwhm": 1.2}, "symmetrize": True,
                   "coadd": False}[k]
    elif bad == "model":
        del conf["fitters"]
        conf.update(model="moments", weight={"fwhm": 1.2})
        exc = ValueError
    elif bad == "list_model":
        fitters[-1]["model"] = "Wmom"
        exc = ValueError
    elif bad == "color_func":
        kw["color_key_func"] = lambda fluxes: "a"
    elif bad == "color_mbobs":
        kw["color_dep_mbobs"] = {}
    mbobs = D.build_mbobs(w)
    ctx.nontrivial()
    ctx.note(bad)
    rng = np.random.RandomState(1)
    if bad == "early":
        md = Metadetect(conf, mbobs, rng)
    try:
        if bad == "early":
            md.result
        else:
            Metadetect(conf, mbobs, rng, **kw)
    except exc:
        return
    require(False, "%s: accepted", bad)


SUBS = [Sub("run", D.world_st(), check, 900, 20000),
        Sub("refuse", bad_st, check_bad, 240, 2000)]
