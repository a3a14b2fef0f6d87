"""P32: symmetries of a do_metadetect run"""
import copy

import galsim
import numpy as np
import ngmix
from hypothesis import strategies as st

from lib import e2e as E
from lib.fresh import Fresh
from lib.gen import fl
from lib.harness import Sub, require
from lib.obs import same_snap, snap_mbobs
from metadetect.metadetect import Metadetect, do_metadetect

PROPERTY = "P32"
RULE = (
    "scenes of 3-6 galaxies of S/N 20-3000, also blended and near the edges, in 1-3 bands with "
    "any WCS, masks, masked fractions, shear and detection bands, and one of twelve changes "
    "with known effect (repeat, defaults written out, earlier runs, units, order of bands, "
    "separate band combinations, separate fitters, requested types, reference pixel, "
    "parity of the sky, colour-dependent images that are the same but for units, other "
    "mask bits and masked fractions); non-trivial: rows in all tables; distinct by full case"
)
WAVG = ["wmom", "pgauss", "ksigma"]
CHANGES = ["repeat", "defaults", "history", "units", "bands", "combs", "fitters", "types",
           "origin", "parity", "colors", "marks"]


@st.composite
def cases(draw, what):
    c = draw(E.scene_st(sn=(10, 3000), many=3))
    c["e"] = [draw(fl(-0.2, 0.2)), draw(fl(-0.2, 0.2))]
    c["jit"] = [[draw(fl(-14, 14)), draw(fl(-14, 14))] for _ in c["jit"]]
    if what not in ("repeat", "defaults", "origin"):
        # the others draw random numbers, so that they depend on the order of things
        c["fitters"] = [f for f in c["fitters"] if f["model"] in WAVG] or [
            {"model": "wmom", "weight": {"fwhm": 1.2}}]
    if what == "colors":
        # objects are assigned to a colour by the fluxes of the first fitter
        c["fitters"][0]["symmetrize"] = True
        c["fitters"][0]["weight"].pop("fwhm_reg", None)
        c["fitters"] = c["fitters"][:1] + [f for f in c["fitters"][1:] if
                                           E.kind(f) != E.kind(c["fitters"][0])]
    c["wt"] = draw(st.sampled_from(["weight", "weight", "uberseg"]))
    if what in ("bands", "types", "parity", "colors"):
        c["noise"] = True
        c["psf"] = "gauss" if what != "parity" else "object"
    nb = c["nband"]
    sub = st.permutations(range(nb)).flatmap(
        lambda p: st.integers(1, nb).map(lambda k: list(p[:k])))
    c["combs"] = draw(st.one_of(st.none(), st.lists(sub, min_size=1, max_size=2)))
    n = 1 if c["combs"] is None else len(c["combs"])
    c["det"] = draw(st.sampled_from([None, "shear_bands", "list"]))
    if c["det"] == "list":
        c["det"] = [draw(sub) for _ in range(n)]
    c["what"] = what
    # detection settings that are left out
    c["few"] = draw(st.lists(st.sampled_from(["minarea", "deblend_cont", "filter_type"]),
                             unique=True))
    c["spots"] = draw(st.lists(st.tuples(
        st.integers(0, nb - 1), st.integers(0, 5),
        st.sampled_from(["mask", "mask", "hole"]),
        st.integers(-14, 2), st.integers(-14, 2)).map(list),
        min_size=2 if what == "bands" else 0, max_size=4))
    c["nodet"] = draw(st.booleans()) or what == "bands"
    c["k"] = draw(st.one_of(st.integers(-12, 12), st.integers(-60, 60)).filter(bool))
    c["perm"] = draw(st.permutations(range(nb)))
    c["shift"] = [draw(fl(-500, 500)), draw(fl(-500, 500))]
    c["region"] = draw(st.sampled_from([None, 3]))
    c["axis"] = draw(st.sampled_from(["u", "v", "both"]))
    return c


def build(c, salt=0):
    mb = E.build(c, salt)
    pos = E.positions(c)
    for b, k, kind, dr, dc in c["spots"]:
        o = mb[b][0]
        r, q = (int(x) + d for x, d in zip(pos[k % len(pos)], (dr, dc)))
        s = (slice(max(r, 0), max(r + 12, 0)), slice(max(q, 0), max(q + 12, 0)))
        with o.writeable():
            if kind == "mask":
                o.bmask[s] |= 16
            else:
                o.weight[s] = 0
    return mb


def conf(c):
    d = E.config(c)
    d["sx"]["detect_thresh"] = 1.5
    if c["psf"] == "object":
        d["metacal"]["psf"] = galsim.Gaussian(fwhm=1.1)
    if c["wt"] != "weight":
        d["meds"]["weight_type"] = c["wt"]
    for k in c["few"]:
        del d["sx"][k]
    if c["nodet"]:
        d["nodet_flags"] = 16
    d["bmask_flags"] = 8 if c["seed"] % 3 == 0 else 0
    if c["region"]:
        d["mask_region"] = c["region"]
    return d


def run(c, mb, config=None, combs=0, det=0, salt=0):
    np.random.seed((c["seed"] + salt) % 2**31)
    return do_metadetect(
        conf(c) if config is None else config, mb,
        np.random.RandomState(c["seed"] % 1000),
        shear_band_combs=c["combs"] if combs == 0 else combs,
        det_band_combs=c["det"] if det == 0 else det)


FRESH = Fresh(lambda c, salt: run(c, build(c), salt=salt))


def same(a, b, what, rtol=0.0, skip=(), edit=None):
    """tables of two runs; edit: (column, values) -> what they should be in the other"""
    require((a is None) == (b is None), "%s: only one run has a result", what)
    if a is None:
        return 0
    require(sorted(a) == sorted(b), "%s: types %s and %s", what, sorted(a), sorted(b))
    n = 1 << 30
    for t in a:
        x, y = a[t], b[t]
        n = min(n, 0 if x is None else len(x))
        require((0 if x is None else len(x)) == (0 if y is None else len(y)),
                "%s: %s rows of %s, and %s", what, "no" if x is None else len(x), t,
                "no" if y is None else len(y))
        if x is None:
            continue
        require(x.dtype.names == y.dtype.names, "%s: columns %s and %s", what,
                x.dtype.names, y.dtype.names)
        for col in x.dtype.names:
            if col in skip:
                continue
            v, w = x[col], y[col]
            if edit is not None:
                v = edit(col, v)
            if v.dtype.kind in "fc":
                tol = max(rtol, 2e-3) if col.startswith("psfrec") and rtol else rtol
                scale = np.nanmax(np.abs(w)) if np.any(np.isfinite(w)) else 1.0
                if col.endswith("_g") and rtol:
                    scale = max(scale, 0.1 if col.startswith("psfrec") else 0.01)
                ok = np.allclose(v, w, rtol=tol, atol=tol*scale, equal_nan=True)
            else:
                ok = np.array_equal(v, w)
            require(ok, "%s: column %s of %s is %s, and was expected as %s", what, col, t,
                    w.tolist(), v.tolist())
    return n


def check(c, ctx):
    FRESH.start()
    what = c["what"]
    mb = build(c)
    before = snap_mbobs(mb)
    cf = conf(c)
    keep = copy.deepcopy(cf)
    a = run(c, mb, cf)
    require(cf == keep, "the configuration was modified")
    now = snap_mbobs(mb)
    require(all(same_snap(x, y) for p, q in zip(before, now) for x, y in zip(p, q)),
            "the observations were modified")
    nb = c["nband"]
    n = 0
    if what == "repeat":
        same(a, run(c, build(c), salt=9), "the same run")
        n = same(FRESH(c, 8), a, "the same run in a new process")
    elif what == "defaults":
        cf.setdefault("nodet_flags", 0)
        cf["mask_region"] = c["region"] or 1
        cf["ormask_region"] = c["region"] or 1
        cf["metacal"].setdefault("step", 0.01)
        cf["metacal"].setdefault("types", ["noshear", "1p", "1m", "2p", "2m"])
        if c["wt"] == "weight":
            cf["meds"]["weight_type"] = "weight"
        for f in cf["fitters"]:
            f.setdefault("symmetrize", True)
            if f["model"] == "am":
                f.setdefault("coadd", False)
        del cf["metacal"]["types"]
        full = [list(range(nb))] if c["combs"] is None else c["combs"]
        det = [list(range(nb))]*len(full) if c["det"] is None else (
            full if c["det"] == "shear_bands" else c["det"])
        n = same(a, run(c, mb, cf, full, det, salt=1), "defaults written out")
    elif what == "history":
        other = build(dict(c, seed=c["seed"] + 1, g=[0.0, 0.03]), salt=4)
        run(c, other, cf)
        # a run with other settings
        diff = copy.deepcopy(cf)
        diff["metacal"]["step"] = 0.03
        diff["metacal"]["types"] = ["noshear", "2m"]
        diff["sx"].update(
            detect_thresh=10.0, minarea=[1, 30, 200][c["seed"] % 3],
            deblend_cont=[1e-5, 0.5][c["seed"] % 2], deblend_nthresh=[2, 64][c["seed"] % 2],
            clean=c["seed"] % 5 > 2, clean_param=[0.1, 5.0][c["seed"] % 2])
        diff["sx"]["filter_kernel"] = [[1.0]]
        diff["meds"].update(min_box_size=24, max_box_size=24, rad_fac=1, weight_type={
            "weight": "uberseg", "uberseg": "weight"}[c["wt"]])
        diff.update(bmask_flags=64, nodet_flags=32, mask_region=7, ormask_region=9,
                    mfrac_fwhm=3.0)
        for f in diff["fitters"]:
            f["symmetrize"] = not f.get("symmetrize", True)
            if f["model"] in WAVG:
                f["weight"]["fwhm"] = 1.7
                if "fwhm_reg" in f["weight"]:
                    f["weight"]["fwhm_reg"] = 0.5
        Metadetect(diff, other, np.random.RandomState(3)).go()
        n = same(a, run(c, mb, cf), "a run after others")
        same(FRESH(c, 0), a, "a run in a new process")
    elif what == "units":
        s = 2.0**c["k"]
        for ol in mb:
            with ol[0].writeable():
                ol[0].image[:, :] *= s
                ol[0].noise[:, :] *= s
                ol[0].weight[:, :] /= s**2

        def edit(col, v):
            if col.endswith("flux") or col.endswith("flux_err"):
                return v*s
            return v
        n = same(a, run(c, mb), "images in other units", 1e-5, edit=edit)
    elif what == "colors":
        n = colors(c, ctx, mb, a)
    elif what == "marks":
        n = marks(c, mb, a)
    elif what == "bands":
        p = c["perm"]
        inv = {b: i for i, b in enumerate(p)}
        mb2 = ngmix.MultiBandObsList()
        for b in p:
            mb2.append(mb[b])
        combs = [list(range(nb))] if c["combs"] is None else c["combs"]
        # the order of the bands in a combination does not matter either
        combs = [sorted(inv[b] for b in s) for s in combs]
        det = c["det"]
        if isinstance(det, list):
            det = [sorted(inv[b] for b in s) for s in det]

        def edit(col, v):
            if "band_flux" in col and nb > 1:
                return v[:, p]
            if col in ("shear_bands", "det_bands"):
                return np.array(["".join(sorted(str(inv[int(b)]) for b in s)) for s in v],
                                dtype=v.dtype)
            return v
        n = same(a, run(c, mb2, combs=combs, det=det), "other order of the bands", 1e-4,
                 edit=edit)
    elif what == "combs":
        combs = [list(range(nb))] if c["combs"] is None else c["combs"]
        parts = []
        for i, s in enumerate(combs):
            det = [c["det"][i]] if isinstance(c["det"], list) else c["det"]
            parts.append(run(c, mb, combs=[s], det=det))
        if a is not None:
            both = {}
            for t in a:
                tabs = [p[t] for p in parts if p[t] is not None]
                both[t] = np.hstack(tabs) if tabs else None
            n = same(both, a, "band combinations one by one", 1e-9)
    elif what == "fitters":
        for f in c["fitters"]:
            d = conf(c)
            del d["fitters"]
            d.update(copy.deepcopy(f))
            d["mfrac_fwhm"] = cf.get("mfrac_fwhm", c["fitters"][0]["weight"]["fwhm"])
            b = run(c, mb, d)
            if a is None:
                require(b is None, "a single fitter gives a result")
                continue
            other = {E.kind(x) for x in c["fitters"]} - {E.kind(f)}
            cut = {}
            for t, v in a.items():
                cut[t] = v
                if v is not None:
                    names = [x for x in v.dtype.names if not any(
                        x.startswith(o + "_") and not x.startswith(E.kind(f) + "_")
                        for o in other)]
                    names = [x for x in names if x in b[t].dtype.names] if b[t] is not None \
                        else names
                    cut[t] = v[names]
                    if b[t] is not None:
                        require(set(names) == set(b[t].dtype.names), "fitters one by one: "
                                "columns %s and %s", names, b[t].dtype.names)
                        b[t] = b[t][names]
            n = same(cut, b, "fitters one by one", 1e-9)
    elif what == "types":
        some = [["noshear"], ["1p", "noshear"], ["2m", "1m", "2p"]][c["seed"] % 3]
        cf["metacal"]["types"] = some
        b = run(c, mb, cf)
        if a is not None:
            n = same({t: a[t] for t in some}, b, "some types only", 1e-6)
    elif what == "origin":
        c2 = copy.deepcopy(c)
        c2["jac"]["off"] = [x + y for x, y in zip(c["jac"]["off"], c["shift"])]
        n = same(a, run(c, build(c2)), "another reference pixel", 1e-4)
    else:
        su = -1.0 if c["axis"] in ("u", "both") else 1.0
        sv = -1.0 if c["axis"] in ("v", "both") else 1.0
        mb2 = ngmix.MultiBandObsList()
        for ol in mb:
            o = ol[0].copy()
            o.jacobian = flip(o.jacobian, su, sv)
            o.psf = ngmix.Observation(ol[0].psf.image.copy(), weight=ol[0].psf.weight.copy(),
                                      jacobian=flip(ol[0].psf.jacobian, su, sv))
            new = ngmix.ObsList()
            new.append(o)
            mb2.append(new)
        b = run(c, mb2)
        if b is not None and su*sv < 0:
            # a mirrored sky exchanges the signs of the second component
            b = dict(b)
            b["2p"], b["2m"] = b["2m"], b["2p"]

        def edit(col, v):
            if su*sv < 0 and (col.endswith("_g") or col.endswith("psf_g")):
                return v*np.array([1, -1])
            if su*sv < 0 and col.endswith("_g_cov"):
                return v*np.array([[1, -1], [-1, 1]])
            return v
        n = same(a, b, "mirrored sky", 1e-5, edit=edit)
    ctx.note(what, "%d bands" % nb)
    if n:
        ctx.nontrivial()


def colors(c, ctx, mb, a):
    """the images of some colours are the given ones in other units"""
    if a is None:
        return 0
    s = 2.0**c["k"]
    near = build(c)
    for ol in near:
        with ol[0].writeable():
            ol[0].image[:, :] *= s
            ol[0].noise[:, :] *= s
            ol[0].weight[:, :] /= s**2
    col = E.kind(c["fitters"][0]) + "_band_flux"
    flux = np.concatenate([np.reshape(v[col], (len(v), -1))[:, 0]
                           for v in a.values() if v is not None] or [np.zeros(0)])
    flux = np.sort(flux[np.isfinite(flux)])
    if flux.size < 2:
        return 0
    # a cut in the widest gap of the middle half
    gaps = np.diff(flux)
    k = flux.size//4 + np.argmax(gaps[flux.size//4:flux.size - flux.size//4])
    if gaps[k] < 1e-3*abs(flux[k]):
        return 0
    cut = (flux[k] + flux[k+1])/2
    keys = [None if c["seed"] % 2 else ("a", 1), "b"]
    imgs = {keys[0]: [mb, build(c)][c["seed"]//2 % 2], "b": near}
    if keys[0] is None and c["seed"]//4 % 2:
        # without an own entry, the images themselves belong to None
        imgs[None] = mb

    def func(fluxes):
        f = np.ravel(fluxes)[0]
        return "b" if f > cut else keys[0]

    np.random.seed(5)
    b = do_metadetect(conf(c), mb, np.random.RandomState(c["seed"] % 1000),
                      shear_band_combs=c["combs"], det_band_combs=c["det"],
                      color_key_func=func, color_dep_mbobs=imgs)
    want, n = {}, 1 << 30
    for t, v in a.items():
        want[t] = v
        if v is None:
            n = 0
            continue
        n = min(n, len(v))
        want[t] = v = v.copy()
        up = np.reshape(v[col], (len(v), -1))[:, 0] > cut
        for name in v.dtype.names:
            if name.endswith("flux") or name.endswith("flux_err"):
                v[name][up] *= s
    same(want, b, "colour-dependent images", 1e-5)
    ctx.note("%s, colours" % c["wt"])
    return n


def marks(c, mb, a):
    """mask bits that mean nothing and masked fractions only change their columns"""
    r = np.random.RandomState(c["seed"] + 5)
    for ol in mb:
        o = ol[0]
        shape = o.image.shape
        with o.writeable():
            # neither a bmask flag, nor a flag without detections nor the edge bit
            bits = r.choice([1, 2, 4, 64, 2**12, 2**20], size=shape)
            keep = o.bmask & (8 | 16)
            o.bmask[:, :] = keep | (bits*(r.uniform(size=shape) < 0.2)).astype("i4")
            o.ormask[:, :] = bits*(r.uniform(size=shape) < 0.5)
        o.mfrac = r.uniform(0, 1, size=shape)
    skip = ["bmask", "bmask_noshear", "ormask", "ormask_noshear", "mfrac", "mfrac_noshear",
            "mfrac_img"]
    return same(a, run(c, mb), "other mask bits", skip=skip)


def flip(j, su, sv):
    return ngmix.Jacobian(row=j.row0, col=j.col0, dvdrow=sv*j.dvdrow, dvdcol=sv*j.dvdcol,
                          dudrow=su*j.dudrow, dudcol=su*j.dudcol)


# most runs for what is slow to show
SUBS = [Sub(w, cases(w), check, {"history": 80, "repeat": 56}.get(w, 40), 700)
        for w in CHANGES]
