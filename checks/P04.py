"""P04: masking corrections applied consistently to every plane and band"""
import numpy as np
from hypothesis import strategies as st

from lib.gen import fl
from lib.harness import Sub, require
from lib.masks import edge_apod_ref, hole_apod_ref, hole_arrays, hole_bmask_ref, holes_st
from lib.obs import PLANES, build_plane_mbobs, plane_mbobs_st, same_snap, snap_mbobs
from metadetect.interpolate import interpolate_image_at_mask
from metadetect.masking import (
    apply_apodization_corrections, apply_foreground_masking_corrections,
)

PROPERTY = "P04"
RULE = (
    "1-4 bands (1-2 exposures each) of 3-24 pixel random planes with and without "
    "a masked-fraction plane, zero weights and pre-set mask bits; 0-6 holes on and "
    "off the image; methods interp, interp-noise and apodize, with and without "
    "expansion and symmetrization; edge tapers of scale 0.1-3; now and then "
    "several times larger, more or brighter; non-trivial: some "
    "but not all pixels are masked; distinct by full case"
)
MASK, EXPAND, INTERP = 2**8, 2**9, 2**12


@st.composite
def cases(draw, method=None):
    sym = draw(st.booleans())
    mb = draw(plane_mbobs_st(square=sym, nepoch=2))
    return {
        "mbobs": mb, "sym": sym,
        "holes": draw(holes_st(mb["ny"], mb["nx"], rmax=20)),
        "method": draw(st.sampled_from(["interp", "interp-noise", "apodize"])),
        "expand": draw(st.one_of(st.just(0), fl(0, 6))),
        "h": draw(fl(0.1, 3)), "iso_buff": draw(st.integers(1, 3)),
        "seed": draw(st.integers(0, 10**6)),
        # holes are also made to overlap with the preset bits
        "bits": draw(st.sampled_from([[MASK, EXPAND, INTERP], [1, 2, 4]])),
    }


def isolated(bad, k):
    out = np.zeros_like(bad)
    for y, x in np.argwhere(bad):
        out[y, x] = np.all(bad[max(0, y-k):y+k+1, max(0, x-k):x+k+1])
    return out


def run(case, mbobs, method=None):
    xm, ym, rm = hole_arrays(case["holes"])
    m, e, i = case["bits"]
    apply_foreground_masking_corrections(
        mbobs=mbobs, xm=xm, ym=ym, rm=rm, method=method or case["method"],
        mask_expand_rad=case["expand"], mask_bit_val=m, expand_mask_bit_val=e,
        interp_bit_val=i, symmetrize=case["sym"], ap_rad=case["h"],
        iso_buff=case["iso_buff"], rng=np.random.RandomState(case["seed"]))


def check(case, ctx):
    mbobs = build_plane_mbobs(case["mbobs"])
    before = snap_mbobs(mbobs)
    dims = (case["mbobs"]["ny"], case["mbobs"]["nx"])
    xm, ym, rm = hole_arrays(case["holes"])
    mbit, ebit, ibit = case["bits"]
    method = case["method"]

    if method == "apodize":
        win = hole_apod_ref(xm, ym, rm, dims, case["sym"], case["h"])
        bad = win < 1 - 1e-9
        undecided = (win < 1) & ~bad
        i0, o0 = hole_bmask_ref(xm, ym, rm, dims, case["sym"])
        undecided |= ~i0 & ~o0
        # within rounding of the rim of a hole the window is 1 up to rounding
        undecided |= ~bad & ~o0
    else:
        win = None
        bad, good = hole_bmask_ref(xm, ym, rm, dims, case["sym"])
        undecided = ~bad & ~good
        if undecided.any():
            ctx.note("pixel on the rim within rounding")
            return
    ein, eout = hole_bmask_ref(xm, ym, rm + case["expand"], dims, case["sym"])
    if method == "interp-noise" and bad.any() and any(
            not (s["weight"][~bad] > 0).any() for b in before for s in b):
        # no weight is left to make noise from
        return

    run(case, mbobs)
    ctx.note(method)
    if bad.any() and not bad.all():
        ctx.nontrivial()
    sure = ~undecided

    for ib, (ol, bl) in enumerate(zip(mbobs, before)):
        for io, (obs, b) in enumerate(zip(ol, bl)):
            where = "band %d obs %d (%s): " % (ib, io, method)
            require(hasattr(obs, "mfrac") == ("mfrac" in b), where + "mfrac appeared")
            require(np.array_equal(obs.ormask, b["ormask"]), where + "ormask changed")
            full = bad.copy()      # pixels which end up masked
            if not bad.any():
                pass
            elif method == "apodize":
                require(np.allclose(obs.image[sure], (b["image"]*win)[sure],
                                    rtol=1e-8, atol=1e-8), where + "image taper")
                require(np.allclose(obs.noise[sure], (b["noise"]*win)[sure],
                                    rtol=1e-8, atol=1e-8), where + "noise taper")
            else:
                check_interp(case, ctx, obs, b, bad, where)
                if not fillable(case, b["image"], bad):
                    # nothing to interpolate from: everything is masked
                    full = np.ones(dims, dtype=bool)
                    ctx.note("all masked")
            use = sure | full
            extra = np.where(full, mbit, 0)
            if bad.any() and method != "apodize" and not full.all():
                extra = np.where(bad, mbit | ibit, 0)
            if case["expand"] > 0:
                use = use & (ein | eout)
                extra = extra | np.where(ein, ebit, 0)
            require(np.array_equal(obs.bmask[use], (b["bmask"] | extra)[use]),
                    where + "mask bits are not (old | hole | expanded hole | interp)")
            use = sure | full
            if "mfrac" in b:
                require(np.array_equal(
                    obs.mfrac[use], np.where(full, 1.0, b["mfrac"])[use]),
                    where + "masked fraction is not 1 in, unchanged outside of, holes")
            require(np.array_equal(
                obs.weight[use], np.where(full, 0.0, b["weight"])[use]),
                where + "weight is not 0 in, unchanged outside of, holes")
            if not np.any(obs.weight > 0):
                ctx.note("weight all zero")
                require(obs.ignore_zero_weight is False,
                        where + "zero weight image still ignores zero weights")
            elif (b["weight"] > 0).any():
                require(obs.ignore_zero_weight == b["izw"],
                        where + "ignore_zero_weight changed")


def fillable(case, image, bad):
    """can the holes be filled at all?"""
    if bad.all():
        return False
    if case["method"] == "interp-noise":
        bad = bad & ~isolated(bad, case["iso_buff"])
    return interpolate_image_at_mask(
        image=image, bad_msk=bad, maxfrac=1.0) is not None


def check_interp(case, ctx, obs, b, bad, where):
    kw = dict(bad_msk=bad, maxfrac=1.0)
    for name in ("image", "noise"):
        new, old = getattr(obs, name), b[name]
        require(np.array_equal(new[~bad], old[~bad]),
                where + name + " changed outside of the holes")
        if bad.all():
            continue
        if not fillable(case, old, bad):
            continue
        if case["method"] == "interp":
            plain = interpolate_image_at_mask(image=old, **kw)
            require(np.allclose(new, plain, rtol=1e-9, atol=1e-9),
                    where + name + " is not the interpolated one")
            continue
        iso = isolated(bad, case["iso_buff"])
        filled = old.copy()
        filled[iso] = new[iso]
        rest = bad & ~iso
        expect = interpolate_image_at_mask(image=filled, bad_msk=rest, maxfrac=1.0)
        require(np.allclose(new, expect, rtol=1e-9, atol=1e-9),
                where + name + " is not interpolated around the noise fill")
        if iso.any():
            ctx.note("noise filled")
            wleft = b["weight"][~bad]
            sig = 1/np.sqrt(np.median(wleft[wleft > 0]))
            v = new[iso]/sig
            require(np.all(np.abs(v) < 7) and np.all(v != 0),
                    where + name + " noise fill is not drawn with the image variance")
            if iso.sum() >= 20:
                s = np.sqrt(np.mean(v**2))
                require(abs(s - 1) < 6/np.sqrt(2*iso.sum()),
                        where + name + " noise fill has %g times the right rms", s)
    if case["method"] == "interp-noise" and not bad.all():
        iso = isolated(bad, case["iso_buff"])
        if iso.any() and obs.weight[~bad].any():
            require(not np.array_equal(obs.image[iso], obs.noise[iso]),
                    where + "image and noise got the same noise fill")


def check_method(case, ctx):
    """an unknown method is refused and nothing is touched"""
    mbobs = build_plane_mbobs(case["mbobs"])
    before = snap_mbobs(mbobs)
    ctx.nontrivial()
    for m in ("interpolate", "apod", "", None):
        try:
            run(case, mbobs, method="none" if m is None else m or " ")
        except RuntimeError:
            pass
        else:
            require(False, "unknown method %r accepted", m)
    for a, b in zip(before, snap_mbobs(mbobs)):
        for x, y in zip(a, b):
            require(same_snap(x, y), "observations modified by a refused call")


def same_or_nan(a, b):
    return np.array_equal(a, b, equal_nan=True)


def check_bands(case, ctx):
    """a band's outcome does not depend on which other bands are present"""
    if case["method"] == "interp-noise":
        case = dict(case, method="interp")
    mbobs = build_plane_mbobs(case["mbobs"])
    case = dict(case)
    run(case, mbobs)
    for i in range(len(mbobs)):
        alone = build_plane_mbobs(case["mbobs"])
        one = type(alone)()
        one.append(alone[i])
        run(case, one)
        for a, b in zip(one[0], mbobs[i]):
            for p in PLANES:
                if hasattr(a, p):
                    require(same_or_nan(getattr(a, p), getattr(b, p)),
                            "band %d: %s depends on the other bands", i, p)
    if len(mbobs) > 1 and case["holes"]:
        ctx.nontrivial()


@st.composite
def edge_cases(draw):
    return {"mbobs": draw(plane_mbobs_st(nepoch=2)), "h": draw(fl(0.1, 3)),
            "bit": draw(st.sampled_from([1, 2**8, 2**25]))}


def check_edge(case, ctx):
    mbobs = build_plane_mbobs(case["mbobs"])
    before = snap_mbobs(mbobs)
    dims = (case["mbobs"]["ny"], case["mbobs"]["nx"])
    win = edge_apod_ref(dims, case["h"])
    msk = win < 1 - 1e-9
    # where the window is 1 up to rounding either answer is fine
    undecided = (win < 1 + 1e-12) & ~msk & rim(dims, case["h"])
    sure = ~undecided
    apply_apodization_corrections(
        mbobs=mbobs, ap_rad=case["h"], mask_bit_val=case["bit"])
    if msk.any() and not msk.all():
        ctx.nontrivial()
    ctx.note("all" if msk.all() else "part")
    for ib, (ol, bl) in enumerate(zip(mbobs, before)):
        for io, (obs, b) in enumerate(zip(ol, bl)):
            where = "band %d obs %d: " % (ib, io)
            for n in ("image", "noise"):
                require(np.allclose(getattr(obs, n), b[n]*win, rtol=1e-8, atol=1e-8),
                        where + n + " is not tapered at the edge")
            require(np.array_equal(
                obs.bmask[sure], (b["bmask"] | np.where(msk, case["bit"], 0))[sure]),
                where + "bit mask")
            require(np.array_equal(
                obs.weight[sure], np.where(msk, 0, b["weight"])[sure]),
                where + "weight")
            if "mfrac" in b:
                require(np.array_equal(
                    obs.mfrac[sure], np.where(msk, 1.0, b["mfrac"])[sure]),
                    where + "masked fraction")
            require(np.array_equal(obs.ormask, b["ormask"]), where + "ormask changed")
            if not np.any(obs.weight > 0):
                ctx.note("weight all zero")
                require(obs.ignore_zero_weight is False, where + "ignore_zero_weight")
            else:
                require(obs.ignore_zero_weight == b["izw"],
                        where + "ignore_zero_weight changed")


def rim(dims, h):
    """pixels whose distance to an edge is the taper range, within rounding"""
    rng = int(6*h + 0.5)
    out = np.zeros(dims, dtype=bool)
    for ax in (0, 1):
        i = np.arange(dims[ax])
        d = np.minimum(i, dims[ax]-1-i)
        # also where 1 - window is below double precision
        near = np.abs(d - rng) < max(1e-6, 0.02*h)
        out |= near[:, None] if ax == 0 else near[None, :]
    return out


SUBS = [
    Sub("foreground", cases(), check, 2500, 60000),
    Sub("method", cases(), check_method, 60, 500, shards=2),
    Sub("bands", cases(), check_bands, 400, 10000),
    Sub("edge", edge_cases(), check_edge, 1500, 40000),
]
