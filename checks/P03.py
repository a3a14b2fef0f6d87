"""P03: the apodization window of masked regions and of image edges"""
import numpy as np
from hypothesis import strategies as st

from lib.gen import fl
from lib.harness import Sub, require
from lib.masks import (
    dims_st, edge_apod_ref, hole_apod_ref, hole_arrays, holes_st,
)
import ngmix
from metadetect.masking import (
    apply_apodization_corrections, get_ap_range, make_foreground_apodization_mask,
)

PROPERTY = "P03"
RULE = (
    "image shapes 1-60 a side (square when symmetrized), 0-6 holes on and off the "
    "image with radii 0-30, taper scales 0.1-8; now and then "
    "several times larger, more or brighter; non-trivial: at least one pixel "
    "strictly between 0 and 1; distinct by full case"
)
TOL = 1e-9


@st.composite
def cases(draw):
    sym = draw(st.booleans())
    ny, nx = draw(dims_st(1, 40, square=sym))
    return {"ny": ny, "nx": nx, "sym": sym, "holes": draw(holes_st(ny, nx)),
            "h": draw(st.one_of(fl(0.1, 2), fl(0.1, 8)))}


def window_ok(got, ref, dims):
    require(got.shape == dims, "wrong shape")
    require(np.all(np.isfinite(got)), "non-finite window")
    require(np.all((got > -TOL) & (got < 1 + TOL)), "window outside of [0, 1]")
    bad = np.abs(got - ref) > TOL
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        require(False, "window at pixel %s is %r, expected %r", i, got[i], ref[i])


def check_hole(case, ctx):
    dims = (case["ny"], case["nx"])
    xm, ym, rm = hole_arrays(case["holes"])
    got = make_foreground_apodization_mask(
        xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=case["sym"], ap_rad=case["h"])
    ref = hole_apod_ref(xm, ym, rm, dims, case["sym"], case["h"])
    if np.any((ref > 1e-6) & (ref < 1 - 1e-6)):
        ctx.nontrivial()
    if np.any(ref < 1e-12):
        ctx.note("reaches zero")
    window_ok(got, ref, dims)


def check_hole_laws(case, ctx):
    """product over holes, any order, rows and columns equivalent"""
    dims = (case["ny"], case["nx"])
    xm, ym, rm = hole_arrays(case["holes"])
    if len(xm) == 0:
        return
    kw = dict(dims=dims, symmetrize=case["sym"], ap_rad=case["h"])
    full = make_foreground_apodization_mask(xm=xm, ym=ym, rm=rm, **kw)
    if np.any((full > 1e-6) & (full < 1 - 1e-6)):
        ctx.nontrivial()
    prod = np.ones(dims)
    for i in range(len(xm)):
        prod *= make_foreground_apodization_mask(
            xm=xm[i:i+1], ym=ym[i:i+1], rm=rm[i:i+1], **kw)
    require(np.allclose(prod, full, atol=TOL, rtol=0), "not a product over holes")
    rev = make_foreground_apodization_mask(
        xm=xm[::-1], ym=ym[::-1], rm=rm[::-1], **kw)
    require(np.allclose(rev, full, atol=TOL, rtol=0), "depends on the hole order")
    if not case["sym"]:
        tr = make_foreground_apodization_mask(
            xm=ym, ym=xm, rm=rm, dims=dims[::-1], symmetrize=False,
            ap_rad=case["h"])
        require(np.allclose(tr.T, full, atol=TOL, rtol=0),
                "rows and columns are not equivalent")


edge_cases = st.fixed_dictionaries({
    "ny": st.integers(1, 60), "nx": st.integers(1, 60),
    "h": st.one_of(fl(0.1, 2), fl(0.1, 8)),
})


def check_edge(case, ctx):
    dims = (case["ny"], case["nx"])
    h = case["h"]
    rng = get_ap_range(h)
    require(rng == int(6*h + 0.5), "taper range %r for scale %r", rng, h)
    obs = ngmix.Observation(
        np.full(dims, 1.0), weight=np.ones(dims), noise=np.full(dims, 2.0),
        bmask=np.zeros(dims, dtype="i4"), jacobian=ngmix.DiagonalJacobian(
            row=0, col=0, scale=0.2))
    mbobs = ngmix.observation.get_mb_obs(obs)
    apply_apodization_corrections(mbobs=mbobs, ap_rad=h, mask_bit_val=4)
    got = mbobs[0][0].image
    ref = edge_apod_ref(dims, h)
    if np.any((ref > 1e-6) & (ref < 1 - 1e-6)):
        ctx.nontrivial()
    ctx.note("wider than the image" if 2*rng >= min(dims) else "fits")
    window_ok(got, ref, dims)
    window_ok(mbobs[0][0].noise/2, ref, dims)
    for k, name in ((got[::-1], "top/bottom"), (got[:, ::-1], "left/right")):
        require(np.allclose(k, got, atol=TOL, rtol=0),
                "edge taper is not %s symmetric", name)
    inner = got[rng+1:dims[0]-rng-1, rng+1:dims[1]-rng-1]
    require(np.all(inner == 1.0), "pixels further than the taper range are touched")


SUBS = [
    Sub("hole", cases(), check_hole, 6000, 150000),
    Sub("hole-laws", cases(), check_hole_laws, 2000, 50000),
    Sub("edge", edge_cases, check_edge, 4000, 100000),
]
