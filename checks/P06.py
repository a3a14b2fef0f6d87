"""P06: mapping positions between sheared and unsheared images"""
import numpy as np
import ngmix
from hypothesis import strategies as st

from lib.gen import fl, rare, seeds
from lib.harness import Sub, require
from lib.obs import jac_mat, jac_st, make_jac
from metadetect import shearpos

PROPERTY = "P06"
RULE = (
    "image shapes 1-6000 a side, general WCS matrices with arbitrary reference "
    "pixel, 0-6 positions on and off the image, all shear types, steps "
    "0.0001-0.3 and the default; now and then "
    "several times larger, more or brighter; non-trivial: a real shear with at least one "
    "position away from the image centre; distinct by full case"
)
SIGNS = {"1p": (1, 0), "1m": (-1, 0), "2p": (0, 1), "2m": (0, -1)}
NOOP = ["noshear", "1p_psf", "1m_psf", "2p_psf", "2m_psf"]


@st.composite
def cases(draw):
    ny, nx = draw(st.one_of(
        st.tuples(st.integers(1, 60), st.integers(1, 60)),
        st.tuples(st.integers(1, 6000), st.integers(1, 6000))))
    n = draw(rare(st.integers(0, 6), st.integers(6, 60)))
    return {
        "ny": ny, "nx": nx, "jac": draw(jac_st()),
        "off": [draw(fl(-300, 300)), draw(fl(-300, 300))],
        "pos": [[draw(fl(-20, ny+20)), draw(fl(-20, nx+20))] for _ in range(n)],
        "type": draw(st.sampled_from(list(SIGNS)*2 + NOOP)),
        "step": draw(st.one_of(st.none(), st.just(0.01), fl(0.0001, 0.3))),
        "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i4"])),
    }


def setup(case):
    shape = (case["ny"], case["nx"])
    jac = make_jac(case["jac"], shape)
    jac.set_cen(row=jac.row0 + case["off"][0], col=jac.col0 + case["off"][1])
    pos = np.array(case["pos"], dtype="f8").reshape(-1, 2)
    rows = pos[:, 0].astype(case["dtype"])
    cols = pos[:, 1].astype(case["dtype"])
    kw = {} if case["step"] is None else {"step": case["step"]}
    return shape, jac, rows, cols, kw


def model(case, rows, cols, shape, jac, inverse):
    """matrix in pixel coordinates about the image centre"""
    if case["type"] in NOOP:
        return rows.astype("f8"), cols.astype("f8")
    g = 0.01 if case["step"] is None else case["step"]
    s1, s2 = SIGNS[case["type"]]
    g1, g2 = s1*g, s2*g
    a = np.array([[1+g1, g2], [g2, 1-g1]])/np.sqrt(1-g*g)      # (u, v)
    if inverse:
        a = np.array([[1-g1, -g2], [-g2, 1+g1]])/np.sqrt(1-g*g)
    dvdrow, dvdcol, dudrow, dudcol = jac_mat(case["jac"])
    w = np.array([[dudcol, dudrow], [dvdcol, dvdrow]])          # (col,row)->(u,v)
    m = np.linalg.solve(w, a @ w)
    rc, cc = (shape[0]-1)/2, (shape[1]-1)/2
    d = m @ np.vstack([cols.astype("f8")-cc, rows.astype("f8")-rc])
    return d[1] + rc, d[0] + cc


def close(a, b, case):
    tol = 1e-3 if case["dtype"] == "f4" else 1e-7
    return np.allclose(a, b, rtol=0, atol=tol*max(300, case["ny"], case["nx"])/50)


def check(case, ctx):
    shape, jac, rows, cols, kw = setup(case)
    t = case["type"]
    if t in SIGNS and rows.size:
        ctx.nontrivial()
    ctx.note(t)
    r0, c0 = rows.copy(), cols.copy()
    sr, sc = shearpos.shear_positions(
        rows=rows, cols=cols, shear_str=t, jac=jac, dims=shape, **kw)
    ur, uc = shearpos.unshear_positions(
        rows=rows, cols=cols, shear_str=t, jac=jac, dims=shape, **kw)
    require(np.array_equal(rows, r0) and np.array_equal(cols, c0),
            "input positions were modified")
    for (gr, gc), inv, name in (((sr, sc), False, "shear"),
                                ((ur, uc), True, "unshear")):
        er, ec = model(case, rows, cols, shape, jac, inv)
        require(np.shape(gr) == rows.shape and np.shape(gc) == cols.shape,
                "%s: wrong output length", name)
        require(close(gr, er, case) and close(gc, ec, case),
                "%s of type %s moved positions to (%s, %s), expected (%s, %s)",
                name, t, gr, gc, er, ec)
    br, bc = shearpos.unshear_positions(
        rows=np.array(sr), cols=np.array(sc), shear_str=t, jac=jac, dims=shape, **kw)
    require(close(br, rows, case) and close(bc, cols, case),
            "unshear does not undo shear")
    cr, cc = (np.array([(n-1)/2]) for n in shape)
    for f in (shearpos.shear_positions, shearpos.unshear_positions):
        a, b = f(rows=cr, cols=cc, shear_str=t, jac=jac, dims=shape, **kw)
        require(close(a, cr, case) and close(b, cc, case),
                "the image centre is not a fixed point")

    # the variants taking an observation agree
    if shape[0]*shape[1] < 4000:
        obs = ngmix.Observation(np.zeros(shape), jacobian=jac)
        for fo, (er, ec) in ((shearpos.shear_positions_obs, (sr, sc)),
                             (shearpos.unshear_positions_obs, (ur, uc))):
            a, b = fo(rows, cols, t, obs, **kw)
            require(close(a, er, case) and close(b, ec, case),
                    "observation and WCS variants disagree")


bad_types = st.fixed_dictionaries({
    "t": st.one_of(st.sampled_from(["3p", "", "1", "p1", "1P", "noshear ", "1p_"]),
                   st.text(max_size=6)),
    "seed": seeds})


def check_bad(case, ctx):
    """unknown shear types are refused rather than silently ignored"""
    t = case["t"]
    if t in SIGNS or t in NOOP:
        return
    ctx.nontrivial()
    jac = ngmix.DiagonalJacobian(row=3, col=3, scale=0.2)
    for f in (shearpos.shear_positions, shearpos.unshear_positions):
        try:
            f(rows=np.array([1.0]), cols=np.array([2.0]), shear_str=t, jac=jac,
              dims=(10, 10))
        except ValueError:
            continue
        require(False, "shear type %r accepted", t)


SUBS = [
    Sub("map", cases(), check, 8000, 200000),
    Sub("bad-type", bad_types, check_bad, 200, 2000, shards=1),
]
