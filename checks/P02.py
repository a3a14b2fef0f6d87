"""P02: geometry of masks around bright foreground objects"""
import numpy as np
from hypothesis import strategies as st

from lib.gen import fl
from lib.harness import Sub, require
from lib.masks import dims_st, hole_arrays, hole_bmask_ref, holes_st
from metadetect.masking import make_foreground_bmask

PROPERTY = "P02"
RULE = (
    "image shapes 1-40 pixels a side (square when symmetrized), 0-6 circular holes "
    "with centres on, at, and far off the image on a continuous or half-integer "
    "grid, radii 0-30, any single bit or bit pattern; now and then "
    "several times larger, more or brighter; non-trivial: some but not "
    "all pixels fall in a hole; distinct by full case"
)


@st.composite
def cases(draw):
    sym = draw(st.booleans())
    ny, nx = draw(dims_st(1, 40, square=sym))
    return {
        "ny": ny, "nx": nx, "sym": sym,
        "holes": draw(holes_st(ny, nx)),
        "bit": draw(st.one_of(
            st.integers(0, 30).map(lambda b: 2**b), st.integers(1, 2**31-1))),
        "dtype": draw(st.sampled_from(["f8", "f4", ">f8", "f8", "f8"])),
    }


def check(case, ctx):
    dims = (case["ny"], case["nx"])
    xm, ym, rm = hole_arrays(case["holes"], case["dtype"])
    args0 = [a.copy() for a in (xm, ym, rm)]
    got = make_foreground_bmask(
        xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=case["sym"],
        mask_bit_val=case["bit"])
    require(got.shape == dims, "wrong shape %s", got.shape)
    require(np.issubdtype(got.dtype, np.integer), "not an integer mask")
    for a, b in zip(args0, (xm, ym, rm)):
        require(np.array_equal(a, b), "input arrays modified")
    sure_in, sure_out = hole_bmask_ref(
        xm.astype("f8"), ym.astype("f8"), rm.astype("f8"), dims, case["sym"])
    if sure_in.any() and sure_out.any():
        ctx.nontrivial()
        ctx.note("symmetrized" if case["sym"] else "plain")
    if len(case["holes"]) > 1:
        ctx.note("several holes")
    require(np.all(got[sure_in] == case["bit"]),
            "a pixel inside a hole does not carry exactly the bit(s)")
    require(np.all(got[sure_out] == 0), "a pixel outside of all holes is marked")


@st.composite
def single_cases(draw):
    c = draw(cases())
    c["dtype"] = "f8"
    c["dx"], c["dy"] = draw(st.integers(-5, 5)), draw(st.integers(-5, 5))
    c["grow"] = draw(fl(0, 5))
    return c


def check_laws(case, ctx):
    """union over holes, order independence, shift, monotonicity in the radius"""
    dims = (case["ny"], case["nx"])
    xm, ym, rm = hole_arrays(case["holes"], "f8")
    kw = dict(dims=dims, symmetrize=case["sym"], mask_bit_val=case["bit"])
    full = make_foreground_bmask(xm=xm, ym=ym, rm=rm, **kw)
    if full.any() and not full.all():
        ctx.nontrivial()
    union = np.zeros_like(full)
    for i in range(len(xm)):
        union |= make_foreground_bmask(
            xm=xm[i:i+1], ym=ym[i:i+1], rm=rm[i:i+1], **kw)
    require(np.array_equal(union, full), "not the union over holes")
    rev = make_foreground_bmask(xm=xm[::-1], ym=ym[::-1], rm=rm[::-1], **kw)
    require(np.array_equal(rev, full), "depends on the order of the holes")
    big = make_foreground_bmask(xm=xm, ym=ym, rm=rm + case["grow"], **kw)
    require(np.all((big & full) == full), "a bigger hole unmasks pixels")
    if not case["sym"]:
        # transposing the problem transposes the mask
        tr = make_foreground_bmask(
            xm=ym, ym=xm, rm=rm, dims=dims[::-1], symmetrize=False,
            mask_bit_val=case["bit"])
        require(np.array_equal(tr.T, full), "rows and columns are not equivalent")


SUBS = [
    Sub("geometry", cases(), check, 8000, 200000),
    Sub("laws", single_cases(), check_laws, 3000, 80000),
]
