"""P20: bright object and edge masks of multi-band exposures"""
import numpy as np
from hypothesis import strategies as st

import lsst.afw.image as afw_image
from lib import lsstworld as L
from lib.gen import seeds
from lib.harness import Sub, require
from lib.masks import edge_apod_ref, holes_st, kern
from metadetect.lsst import util
from metadetect.lsst.masking import (
    apply_apodized_bright_masks_mbexp, apply_apodized_edge_masks_mbexp,
)

PROPERTY = "P20"
RULE = (
    "multi-band exposures at any origin, orientation and shape with pre-set mask bits, "
    "with or without noise exposures, masked fractions and OR masks, and 0-6 bright "
    "objects on, near or off the image; now and then "
    "several times larger, more or brighter; non-trivial: some but not all pixels masked; "
    "distinct by full case"
)
APRAD, EXPAND = 1.5, 16


@st.composite
def cases(draw, holes=True):
    w = draw(L.mbexp_st(1, 3, 6, 60))
    g = w["g"]
    c = {"world": w, "noise": draw(st.booleans()), "mfrac": draw(st.booleans()),
         "ormask": draw(st.booleans()), "nor": draw(st.integers(1, 4)),
         "seed": draw(seeds), "order": draw(st.sampled_from(["bright", "edge", "both"]))}
    c["holes"] = draw(holes_st(g["ny"], g["nx"]))
    return c


def bits(*names):
    for n in names:
        afw_image.Mask.addMaskPlane(n)
    return [afw_image.Mask.getPlaneBitMask(n) for n in names]


def check(c, ctx):
    w = c["world"]
    g = w["g"]
    dims = (g["ny"], g["nx"])
    mb = util.get_mbexp(L.build_exps(w))
    no = util.get_mbexp(L.build_exps(w, salt=1)) if c["noise"] else None
    mf = util.get_mbexp(L.build_exps(w, salt=2)) if c["mfrac"] else None
    r = np.random.RandomState(c["seed"])
    om = [r.randint(0, 2**9, size=dims).astype("i4") for _ in range(c["nor"])] \
        if c["ormask"] else None
    wcs = mb.singles[0].getWcs()
    hx = np.array([h[0] for h in c["holes"]], dtype=float)
    hy = np.array([h[1] for h in c["holes"]], dtype=float)
    hr = np.array([h[2] for h in c["holes"]], dtype=float)
    info = np.zeros(hx.size, dtype=[("ra", "f8"), ("dec", "f8"), ("radius_pixels", "f8")])
    if hx.size:
        info["ra"], info["dec"] = wcs.pixelToSkyArray(
            hx + g["x0"], hy + g["y0"], degrees=True)
        info["radius_pixels"] = hr
    info0 = info.copy()
    s_mb, s_no, s_mf = [None if m is None else L.snap(m.singles) for m in (mb, no, mf)]
    s_om = None if om is None else [o.copy() for o in om]
    kw = {}
    if no is not None:
        kw["noise_mbexp"] = no
    if mf is not None:
        kw["mfrac_mbexp"] = mf
    if om is not None:
        kw["ormasks"] = om
    do = ["bright", "edge"] if c["order"] == "both" else [c["order"]]
    for k in do:
        if k == "bright":
            apply_apodized_bright_masks_mbexp(mbexp=mb, bright_info=info, **kw)
        else:
            apply_apodized_edge_masks_mbexp(mbexp=mb, **kw)
    require(np.array_equal(info, info0), "the table of bright objects was modified")

    bright, expanded, edge = bits("BRIGHT", "BRIGHT_EXPANDED", "APODIZED_EDGE")
    require(len({bright, expanded, edge}) == 3, "mask planes are not distinct")
    win = np.ones(dims)
    add = np.zeros(dims, dtype="i4")
    zap = np.zeros(dims, dtype=bool)
    vague = np.zeros(dims, dtype=bool)
    yy, xx = np.mgrid[:dims[0], :dims[1]].astype(float)
    if "bright" in do:
        for x, y, rad in zip(hx, hy, hr):
            d = np.hypot(xx - x, yy - y)
            inside = d < rad
            k = np.where(inside, kern(d, rad, APRAD), 1.0)
            vague |= np.abs(d - rad) < 5e-3
            vague |= np.abs(d - rad - EXPAND) < 1e-4
            win *= k
            add[inside] |= bright
            zap |= inside
            add[d < rad + EXPAND] |= expanded
    if "edge" in do:
        e = edge_apod_ref(dims, APRAD)
        win *= e
        add[e < 1] |= edge
        zap |= e < 1
    ok = ~vague
    if zap.any() and not zap.all():
        ctx.nontrivial()
    ctx.note("%d bands" % len(w["bands"]), *do)

    for what, m, s in (("image", mb, s_mb), ("noise", no, s_no)):
        if m is None:
            continue
        for i, b in enumerate(w["bands"]):
            e, (im, mask, var) = m[b], s[i][:3]
            require(np.allclose(e.image.array, im*win, atol=3e-6*np.abs(im).max()),
                    "%s, %s: the image is not multiplied by the taper", what, b)
            require(np.array_equal(e.image.array[ok & ~zap], im[ok & ~zap]),
                    "%s, %s: unmasked pixels changed", what, b)
            require(np.array_equal(e.mask.array[ok], (mask | add)[ok]),
                    "%s, %s: wrong mask bits", what, b)
            v = np.where(zap, np.inf, var)
            require(np.array_equal(e.variance.array[ok], v.astype("f4")[ok]),
                    "%s, %s: variance not infinite in exactly the masked pixels", what, b)
            require(e.getPsf() is s[i][3] and e.getWcs() is s[i][4], "PSF or WCS changed")
    if mf is not None:
        for i, b in enumerate(w["bands"]):
            f = np.where(zap, 1.0, s_mf[i][0])
            require(np.allclose(mf[b].image.array[ok], f[ok], atol=1e-6),
                    "masked fraction of %s is not one in exactly the masked pixels", b)
    if om is not None:
        for k, (o, s) in enumerate(zip(om, s_om)):
            require(np.array_equal(o[ok], (s | add)[ok]), "ormask %d: wrong bits", k)


SUBS = [Sub("masks", cases(), check, 4000, 60000)]
