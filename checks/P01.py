"""P01: filling masked pixels by interpolation"""
import numpy as np
from hypothesis import strategies as st
from scipy.ndimage import distance_transform_edt
from scipy.spatial import ConvexHull

from lib.gen import fl, rare, rng_of, seeds
from lib.harness import Sub, require
from metadetect.interpolate import interpolate_image_at_mask

PROPERTY = "P01"
RULE = (
    "images 3-28 pixels a side of random content, bad-pixel masks built from "
    "random single pixels, blocks, rows and columns (incl. touching the border), "
    "buff 1-6, iso_buff 1-3, maxfrac in [0,1]; now and then "
    "several times larger, more or brighter; non-trivial: at least one bad pixel "
    "and a fill happened (or, for the refusal sub-check, a bad fraction within "
    "0.1 of the limit); distinct by full case"
)


@st.composite
def masks(draw, lo=3, hi=28):
    num = draw(rare(st.just(st.integers(lo, hi)), st.just(st.integers(lo, 4*hi)), 16))
    ny, nx = draw(num), draw(num)
    shapes = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["pix", "block", "block", "row", "col", "disk"]))
        y, x = draw(st.integers(0, ny-1)), draw(st.integers(0, nx-1))
        big = 9 if max(ny, nx) <= hi else max(ny, nx)
        h, w = draw(st.integers(1, big)), draw(st.integers(1, big))
        shapes.append([kind, y, x, h, w])
    return {"ny": ny, "nx": nx, "shapes": shapes}


def build_mask(m):
    bad = np.zeros((m["ny"], m["nx"]), dtype=bool)
    yy, xx = np.mgrid[:m["ny"], :m["nx"]]
    for kind, y, x, h, w in m["shapes"]:
        if kind == "pix":
            bad[y, x] = True
        elif kind == "block":
            bad[y:y+h, x:x+w] = True
        elif kind == "row":
            bad[y, :] = True
        elif kind == "col":
            bad[:, x] = True
        else:
            bad |= (yy-y)**2 + (xx-x)**2 < (h/1.7)**2
    return bad


def near_good(bad, buff):
    """good pixels in the (2 buff+1)^2 box around any bad pixel"""
    out = np.zeros_like(bad)
    for y, x in np.argwhere(bad):
        out[max(0, y-buff):y+buff+1, max(0, x-buff):x+buff+1] = True
    return out & ~bad


def isolated(bad, iso_buff):
    out = np.zeros_like(bad)
    for y, x in np.argwhere(bad):
        if np.all(bad[max(0, y-iso_buff):y+iso_buff+1,
                      max(0, x-iso_buff):x+iso_buff+1]):
            out[y, x] = True
    return out


def triangulable(pts):
    """can these points carry a 2d interpolant?"""
    if len(pts) < 3:
        return False
    p = pts - pts.mean(axis=0)
    return np.linalg.matrix_rank(p) == 2


def hull_depth(near, bad):
    """distance of the bad pixels to the convex hull of the good ones, <0 inside"""
    eq = ConvexHull(np.argwhere(near).astype(float)).equations
    return (eq[:, :2] @ np.argwhere(bad).T + eq[:, 2:]).max(axis=0)


def image_for(case, shape):
    r = rng_of(case)
    return r.normal(size=shape) * 10.0**r.randint(-2, 3) + r.uniform(-5, 5)


fill_case = st.fixed_dictionaries({
    "mask": masks(), "seed": seeds, "buff": st.integers(1, 6),
    "iso_buff": st.integers(1, 3),
})


def usable(case, ctx, buff):
    bad = build_mask(case["mask"])
    near = near_good(bad, buff)
    if not bad.any() or bad.all() or not triangulable(np.argwhere(near)):
        ctx.note("not interpolable")
        return None, None
    return bad, near


def check_fill(case, ctx):
    """good pixels and inputs untouched; fill depends on nearby good pixels only"""
    buff = case["buff"]
    bad, near = usable(case, ctx, buff)
    if bad is None:
        return
    im = image_for(case, bad.shape)
    im0, bad0 = im.copy(), bad.copy()
    kw = dict(maxfrac=1.0, buff=buff, iso_buff=case["iso_buff"])
    out = interpolate_image_at_mask(image=im, bad_msk=bad, **kw)
    require(out is not None, "refused with maxfrac=1 and a good pixel present")
    require(out.shape == im.shape, "shape changed")
    require(np.array_equal(im, im0) and np.array_equal(bad, bad0),
            "the caller's image or mask was modified")
    require(np.array_equal(out[~bad], im[~bad]), "a good pixel was changed")
    require(np.all(np.isfinite(out)), "non-finite fill value")
    ctx.nontrivial()
    ctx.note("bad at border" if (bad[0].any() or bad[-1].any() or bad[:, 0].any()
                                 or bad[:, -1].any()) else "bad inside")

    # content of bad pixels must not leak, nor content of far good pixels
    r = rng_of(case, 1)
    im2 = im.copy()
    im2[bad] = r.normal(size=bad.sum())*1e4
    if r.uniform() < 0.3:
        im2[bad] = np.nan
    far = ~bad & ~near
    im2[far] = r.normal(size=far.sum())*1e4
    if far.any():
        ctx.note("has far good pixels")
    out2 = interpolate_image_at_mask(image=im2, bad_msk=bad, **kw)
    require(np.array_equal(out2[bad], out[bad]),
            "fill values depend on bad pixels or on good pixels further than buff")
    if buff == 4:
        kw = dict(maxfrac=1.0)
        require(np.array_equal(interpolate_image_at_mask(image=im, bad_msk=bad, **kw), out),
                "a buffer of four pixels is the default")

    # linearity-free invariance: an offset and a scale move with the fill.
    # Clough-Tocher gradients are estimated iteratively, hence the tolerance.
    # the fill must actually respond to the neighbours
    depth = hull_depth(near, bad)
    inside = depth < -1e-6
    o = out[bad]
    require(np.all(o[depth > 1e-6] == 0.0),
            "pixels outside the surrounding good region are not filled with 0")
    if inside.any():
        ctx.note("some inside hull")
        im3 = im + 1000.0
        o3 = interpolate_image_at_mask(image=im3, bad_msk=bad, **kw)[bad]
        scale = max(np.abs(im[~bad]).max(), 1.0)
        require(np.all(np.abs(o3[inside] - o[inside] - 1000.0) < 1e-3*scale + 1e-2),
                "the fill does not follow a constant added to the image")
        # interpolation stays within a few ranges of its support
        lo, hi = im[near].min(), im[near].max()
        # a cubic may run further off across a wide gap
        span = (hi - lo)*max(1.0, distance_transform_edt(bad).max()/3)
        require(np.all((o[inside] > lo - 3*span - 1e-9)
                       & (o[inside] < hi + 3*span + 1e-9)),
                "fill value far outside of the range of the neighbours")


plane_case = st.fixed_dictionaries({
    "mask": masks(), "buff": st.integers(1, 6), "iso_buff": st.integers(1, 3),
    "a": fl(-100, 100), "b": fl(-10, 10), "c": fl(-10, 10),
})


def check_plane(case, ctx):
    """affine images are reproduced at every pixel surrounded by good pixels"""
    bad, near = usable(case, ctx, case["buff"])
    if bad is None:
        return
    yy, xx = np.mgrid[:bad.shape[0], :bad.shape[1]]
    truth = case["a"] + case["b"]*yy + case["c"]*xx
    im = truth.copy()
    im[bad] = 1e5
    out = interpolate_image_at_mask(
        image=im, bad_msk=bad, maxfrac=1.0, buff=case["buff"],
        iso_buff=case["iso_buff"])
    depth = hull_depth(near, bad)
    ins = depth < -1e-6
    outs = depth > 1e-6
    if ins.any():
        ctx.nontrivial()
        d = out[bad][ins] - truth[bad][ins]
        tol = 1e-4*(1 + np.abs(truth).max())
        require(np.all(np.abs(d) < tol),
                "affine image not reproduced: max error %g", np.abs(d).max())
    if outs.any():
        ctx.note("extrapolated pixels")
        require(np.all(out[bad][outs] == 0), "outside of the hull must be 0")


@st.composite
def refuse_cases(draw):
    m = draw(masks(3, 14))
    bad = build_mask(m)
    nb, n = int(bad.sum()), bad.size
    # limits at, just below, and just above the actual fraction
    frac = nb/n
    lim = draw(st.sampled_from([
        frac, frac*(1 - 1e-9), (nb-1)/n, min(1.0, (nb+1)/n), 0.9, 0.5, 1.0]))
    return {"mask": m, "maxfrac": max(0.0, lim), "seed": draw(seeds),
            "edit": draw(st.sampled_from(
                ["", "", "", "", "all", "none", "one good", "line", "corner"])),
            "default": draw(st.booleans())}


def check_refuse(case, ctx):
    """None exactly when too much is bad, or nothing is good"""
    bad = build_mask(case["mask"])
    if case["edit"]:
        bad[:, :] = case["edit"] != "none"
    if case["edit"] == "one good":
        bad[-1, 0] = False
    elif case["edit"] == "line":
        bad[1, :] = False
    elif case["edit"] == "corner":
        bad[:2, :2] = [[False, False], [False, True]]
    im = image_for(case, bad.shape)
    lim = 0.90 if case["default"] else case["maxfrac"]
    frac = bad.sum()/bad.size
    expect_none = bad.all() or frac > lim
    if (not expect_none and bad.any()
            and not triangulable(np.argwhere(near_good(bad, 4)))):
        # too few good pixels, or all on a line
        expect_none = True
        ctx.nontrivial()
        ctx.note("degenerate")
    if not bad.any():
        ctx.note("nothing bad")
    if abs(frac - lim) < 0.1:
        ctx.nontrivial()
    ctx.note("refused" if expect_none else "accepted")
    kw = {} if case["default"] else {"maxfrac": lim}
    out = interpolate_image_at_mask(image=im, bad_msk=bad, **kw)
    require((out is None) == expect_none,
            "bad fraction %r, limit %r: got %s", frac, lim,
            "None" if out is None else "an image")
    if out is not None:
        require(np.array_equal(out[~bad], im[~bad]), "a good pixel was changed")


noise_case = st.fixed_dictionaries({
    "mask": masks(8, 28), "seed": seeds, "buff": st.integers(1, 5),
    "iso_buff": st.integers(0, 3), "weight": fl(0.01, 100.0),
})


def check_noise(case, ctx):
    """isolated bad pixels get noise of the stated variance, the rest is interpolated"""
    bad = build_mask(case["mask"])
    iso = isolated(bad, case["iso_buff"])
    if bad.all() or not bad.any():
        return
    rest = bad & ~iso
    # the isolated pixels count as good once they are filled
    near = near_good(rest, case["buff"])
    if rest.any() and not triangulable(np.argwhere(near)):
        ctx.note("not interpolable")
        return
    im = image_for(case, bad.shape)
    kw = dict(image=im, bad_msk=bad, maxfrac=1.0, buff=case["buff"],
              iso_buff=case["iso_buff"], fill_isolated_with_noise=True,
              weight=case["weight"])
    bad0 = bad.copy()
    out = interpolate_image_at_mask(rng=np.random.RandomState(case["seed"]), **kw)
    again = interpolate_image_at_mask(rng=np.random.RandomState(case["seed"]), **kw)
    require(np.array_equal(bad, bad0), "the caller's mask was modified")
    require(np.array_equal(out, again), "same seed, different fill")
    if case["iso_buff"] == 1 and case["buff"] == 4:
        few = {k: v for k, v in kw.items() if k not in ("buff", "iso_buff")}
        require(np.array_equal(out, interpolate_image_at_mask(
            rng=np.random.RandomState(case["seed"]), **few)),
            "an isolated pixel is one without good neighbours, by default")
    require(np.array_equal(out[~bad], im[~bad]), "a good pixel was changed")
    require(np.all(np.isfinite(out)), "non-finite fill")
    other = interpolate_image_at_mask(
        rng=np.random.RandomState(case["seed"] + 1), **kw)
    plain = interpolate_image_at_mask(
        image=im, bad_msk=bad, maxfrac=1.0, buff=case["buff"],
        iso_buff=case["iso_buff"]) if triangulable(
            np.argwhere(near_good(bad, case["buff"]))) else None
    if not iso.any():
        ctx.note("no isolated")
        require(np.array_equal(other, out), "noise used although nothing is isolated")
        require(np.array_equal(out, plain),
                "differs from the plain interpolation although nothing is isolated")
        return
    ctx.nontrivial()
    ctx.note("isolated>=20" if iso.sum() >= 20 else "isolated<20")
    sig = 1/np.sqrt(case["weight"])
    v = out[iso]/sig
    require(np.all(out[iso] != other[iso]), "isolated pixel does not depend on the rng")
    require(np.all(np.abs(v) < 7), "isolated pixel not drawn with variance 1/weight")
    if iso.sum() >= 20:
        # fixed-seed normal draws: 6 sigma bounds on their scatter
        s = np.sqrt(np.mean(v**2))
        require(abs(s - 1) < 6/np.sqrt(2*iso.sum()),
                "noise fill has standard deviation %g times the stated one", s)
    # doubling the weight scales the same draws
    kw4 = dict(kw, weight=4*case["weight"])
    o4 = interpolate_image_at_mask(rng=np.random.RandomState(case["seed"]), **kw4)
    require(np.allclose(o4[iso]*2, out[iso], rtol=1e-10, atol=0),
            "noise fill does not scale as 1/sqrt(weight)")
    # the remaining ones are interpolated, the isolated ones counting as good
    tmp = im.copy()
    tmp[iso] = out[iso]
    expect = interpolate_image_at_mask(
        image=tmp, bad_msk=rest, maxfrac=1.0, buff=case["buff"],
        iso_buff=case["iso_buff"])
    require(np.array_equal(expect[rest], out[rest]),
            "pixels next to isolated ones are not interpolated from good + filled")


need_case = st.fixed_dictionaries({
    "mask": masks(8, 20), "seed": seeds,
    "miss": st.sampled_from(["rng", "weight"]),
})


def check_need(case, ctx):
    """noise fill without an rng or a weight is refused loudly"""
    bad = build_mask(case["mask"])
    if not bad.any() or bad.sum()/bad.size > 0.9 or not triangulable(
            np.argwhere(near_good(bad, 4))):
        return
    ctx.nontrivial()
    kw = dict(rng=np.random.RandomState(1), weight=1.0)
    kw[case["miss"]] = None
    try:
        interpolate_image_at_mask(
            image=image_for(case, bad.shape), bad_msk=bad,
            fill_isolated_with_noise=True, **kw)
    except RuntimeError:
        return
    require(False, "noise fill accepted without %s", case["miss"])


SUBS = [
    Sub("fill", fill_case, check_fill, 3000, 60000),
    Sub("plane", plane_case, check_plane, 2500, 60000),
    Sub("refuse", refuse_cases(), check_refuse, 2500, 60000),
    Sub("noise", noise_case, check_noise, 2500, 60000),
    Sub("need", need_case, check_need, 40, 400, shards=1),
]
