"""P15: colour-dependent runs"""
import copy

import numpy as np
from hypothesis import strategies as st

from checks.P13 import compare_fits, expect_none, expected_fits, planes_of, same_planes
from checks.P14 import check_rows
from lib import driver as D
from lib.harness import Sub, require
from lib.obs import make_jac
from metadetect import do_metadetect
from metadetect.detect import CatalogMEDSifier
from metadetect.fitting import fit_mbobs_list_wavg

PROPERTY = "P15"
RULE = (
    "the worlds of P13 with 2-4 bands and 1-3 colour renderings (one of which may be "
    "the input itself, or have a failing metacal), keyed by a threshold on the flux "
    "ratio of the first two bands; now and then "
    "several times larger, more or brighter; non-trivial: rows of at least two different "
    "renderings in one run; distinct by full case"
)


@st.composite
def cases(draw):
    w = draw(D.world_st(joint=True, color=True, faults=False))
    w["nobj"] = [max(n, 1) if draw(st.integers(0, 5)) else 0 for n in w["nobj"]]
    w["mfrac"] = draw(st.sampled_from(["none", "zero", "some"]))
    nother = draw(st.integers(1, 2))
    keys = list(range(1, nother + 1)) + draw(
        st.sampled_from([[], ["none"], ["self"], ["none", "self"]]))
    w["keys"] = draw(st.permutations(keys))
    w["nother"] = nother
    w["thr"] = sorted(draw(st.lists(fl_, min_size=4, max_size=4)))
    w["bad_color"] = draw(st.sampled_from([None, None, None, 1]))
    w["reg_first"] = False
    return w


fl_ = st.floats(0.4, 2).map(lambda x: round(x, 3))


def pick(w, flux):
    """index in w['keys'] for given fluxes"""
    n = len(w["keys"])
    with np.errstate(all="ignore"):
        r = flux[0]/flux[1]
    for i in range(n - 1):
        if r < w["thr"][i]*w["flux"][0]/w["flux"][1]:
            return i
    return n - 1


def check(w, ctx):
    mbobs = D.build_mbobs(w)
    if expect_none(w, mbobs) is not None:
        return
    others = [D.build_mbobs(w, salt=k+1, gain=1 + k, dT=0.1*(k+1))
              for k in range(w["nother"])]
    world = D.World(w, mbobs, others)
    before = [planes_of(m) for m in world.pool]
    dep = {}
    for k in w["keys"]:
        if k == "self":
            dep["self"] = mbobs
        elif k != "none":
            dep[k] = others[k-1]
    seen = []

    def func(flux):
        f = np.array(flux, dtype="f8")
        require(f.shape == (w["nband"],), "the key function got %s fluxes", f.shape)
        seen.append(f)
        k = w["keys"][pick(w, f)]
        return None if k == "none" else k

    kw = {}
    if w["shear"] is not None:
        kw["shear_band_combs"] = w["shear"]
    if w["det"] is not None:
        kw["det_band_combs"] = w["det"]
    rng = np.random.RandomState(w["seed"])
    conf = copy.deepcopy(w["conf"])

    def go():
        return do_metadetect(conf, mbobs, rng, color_key_func=func,
                             color_dep_mbobs=dep, **kw)

    if w["fitters"][0]["model"] == "am":
        return
    res = world.run(go)
    require(conf == w["conf"], "the caller's configuration was modified")
    require(all(same_planes(a, planes_of(m)) for a, m in zip(before, world.pool)),
            "the input images were modified")
    calls = [i for i, _ in world.mcal_calls]
    require(len(calls) == len(set(calls)),
            "metacal ran more than once on the same images")
    shape = (w["ny"], w["nx"])
    jac = make_jac(w["jac"], shape)
    c = w["conf"]
    breg = c.get("mask_region", 0)
    oreg = c.get("ormask_region", 0)
    oreg = breg if oreg <= 1 else oreg
    first = w["fitters"][0]
    fwhm = c.get("mfrac_fwhm", first["weight"]["fwhm"])
    used = set()
    for t in world.types:
        exp = []
        for i, sb in enumerate(world.shear):
            cat = D.catalog(w, t, world.det[i])
            if cat.size == 0:
                continue
            mbl = CatalogMEDSifier(
                world.fake(0)[t], cat["x"], cat["y"],
                D.boxes(w, cat)).get_multiband_meds().get_mbobs_list()
            fitter = D.make_fitter(dict(first, weight=dict(first["weight"])))
            fx = []
            with np.errstate(all="ignore"):
                for symm in (True, first.get("symmetrize", True)):
                    f = fit_mbobs_list_wavg(
                        mbobs_list=mbl, fitter=fitter, shear_bands=sb, symmetrize=symm,
                        bmask_flags=c.get("bmask_flags", 0))
                    fx.append(f[fitter.kind + "_band_flux"])
            for k in range(cat.size):
                ks = {pick(w, f[k]) for f in fx}
                require(any(np.allclose(s, f[k], rtol=1e-6, equal_nan=True)
                            for s in seen for f in fx),
                        "the key function never got the fluxes of an object")
                if len(ks) > 1:
                    ctx.note("ambiguous")
                    return
                key = w["keys"][ks.pop()]
                idx = 0 if key in ("none", "self") else key
                if w["bad_color"] == idx:
                    ctx.note("failing rendering")
                    continue
                exp.append((i, k, idx))
        if not exp:
            require(res[t] is None, "%s: nothing to measure but there is a table", t)
            continue
        rows = res[t]
        require(rows is not None and rows.shape == (len(exp),), "%s: %s rows, expected %d",
                t, None if rows is None else rows.shape, len(exp))
        for r, (i, k, idx) in enumerate(exp):
            used.add(idx)
            sb = world.shear[i]
            cat, tabs = expected_fits(w, world, t, i, mbobs=world.fake(idx)[t], sub=k)
            row = rows[r:r+1]
            what = "%s, shear bands %s, rendering %d" % (t, sb, idx)
            compare_fits(row, tabs, what)
            src = world.pool[idx]
            obs = [src[b][0] for b in sb]
            om = np.bitwise_or.reduce([o.ormask for o in obs])
            bm = np.bitwise_or.reduce([o.bmask for o in obs])
            wt = np.array([np.median(o.weight[o.weight > 0]) for o in obs])
            mf = sum(x*(o.mfrac if o.has_mfrac() else 0*o.image)
                     for x, o in zip(wt, obs))/wt.sum()
            mx = np.array([o.weight.max() for o in obs])
            ww = dict(w, psfT=[T + 0.1*idx for T in w["psfT"]])
            check_rows(ww, ctx2(), t, sb, cat, row, om, bm, mf, mx, jac, breg, oreg, fwhm)
            for lab, v in (("shear_bands", sb), ("det_bands", world.det[i])):
                require(str(row[lab][0]) == "".join(str(b) for b in sorted(v)),
                        "%s: %s %s", what, lab, row[lab])
    if len(used) > 1:
        ctx.nontrivial()
    ctx.note("%d renderings" % len(used))


class ctx2:
    def note(self, *a):
        pass

    def nontrivial(self):
        pass


# the same images for every colour give the plain result; joint first fitters fail
def check_same(w, ctx):
    mbobs = D.build_mbobs(w)
    if expect_none(w, mbobs) is not None:
        return
    kw = {}
    if w["shear"] is not None:
        kw["shear_band_combs"] = w["shear"]
    if w["det"] is not None:
        kw["det_band_combs"] = w["det"]
    out = []
    for color in (False, True):
        if color:
            kw.update(color_key_func=lambda f: "k" if f[0] > f[1] else None,
                      color_dep_mbobs={"k": mbobs})
        world = D.World(w, mbobs)
        rng = np.random.RandomState(w["seed"])
        try:
            out.append(world.run(lambda: do_metadetect(
                copy.deepcopy(w["conf"]), mbobs, rng, **kw)))
        except RuntimeError:
            require(color and w["fitters"][0]["model"] == "am",
                    "a plain run or one with moments was refused")
            ctx.note("refused")
            return
    require(w["fitters"][0]["model"] != "am", "colours need a moments fitter first")
    a, b = out
    require(set(a) == set(b), "types differ")
    for t in a:
        if a[t] is None:
            require(b[t] is None, "%s: rows differ", t)
            continue
        ctx.nontrivial()
        require(b[t] is not None and a[t].shape == b[t].shape
                and set(a[t].dtype.names) == set(b[t].dtype.names),
                "%s: tables differ", t)
        for n in a[t].dtype.names:
            if n.startswith("am_"):
                continue
            x, y = a[t][n], b[t][n]
            require(np.allclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True)
                    if x.dtype.kind == "f" else np.array_equal(x, y),
                    "%s: %s is %s with colours, %s without", t, n, y, x)


SUBS = [Sub("colours", cases(), check, 480, 12000),
        Sub("same-images", D.world_st(joint=True, faults=False).filter(
            lambda w: w["nband"] > 1 and w["mfrac"] != "full"), check_same, 240, 6000)]
