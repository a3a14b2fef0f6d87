"""P05: Gaussian-weighted masked fractions"""
import numpy as np
import ngmix
from hypothesis import strategies as st

from lib.gen import fl, rare, seeds
from lib.harness import Sub, require
from lib.obs import jac_mat, jac_st, make_jac, same_snap, snapshot
from metadetect.mfrac import measure_mfrac

PROPERTY = "P05"
RULE = (
    "masked-fraction images 12-60 a side (binary, smooth or constant), 1-5 "
    "positions inside of, at the border of and off the image, stamps 0-64, "
    "apertures of 1.5-12 pixels FWHM, general WCS matrices; now and then "
    "several times larger, more or brighter; non-trivial: some "
    "position has an aperture mean strictly between 0 and 1; distinct by full case"
)


@st.composite
def cases(draw):
    num = draw(rare(st.just(st.integers(12, 60)), st.just(st.integers(4, 300)), 24))
    ny, nx = draw(num), draw(num)
    pos = []
    for _ in range(draw(rare(st.integers(1, 5), st.integers(0, 60)))):
        pad = draw(st.sampled_from([-3, 0, 0, 2, 40]))
        pos.append([draw(fl(-pad, nx-1+pad)) if pad > -1 else draw(fl(min(3, nx/2), max(nx/2, nx-4))),
                    draw(fl(-pad, ny-1+pad)) if pad > -1 else draw(fl(min(3, ny/2), max(ny/2, ny-4))),
                    draw(st.sampled_from([0, 2, 3, 8, 16, 24, 32, 48, 64,
                                      1, 5, 7, 40, 96, 128, 256]))])
    return {"ny": ny, "nx": nx, "seed": draw(seeds), "pos": pos,
            "fwhm_pix": draw(fl(1.5, 12)), "jac": draw(jac_st()),
            "kind": draw(st.sampled_from(["binary", "smooth", "const", "half"])),
            "default": draw(st.integers(0, 5)) == 0,
            "f4": draw(st.booleans()), "zero_wt": draw(st.booleans()),
            "blank": draw(st.integers(0, 9)) == 0}


def build(case):
    r = np.random.RandomState(case["seed"])
    shape = (case["ny"], case["nx"])
    if case["kind"] == "binary":
        m = (r.uniform(size=shape) < 0.3).astype("f8")
    elif case["kind"] == "smooth":
        m = r.uniform(size=shape)
    elif case["kind"] == "const":
        m = np.full(shape, r.uniform())
    else:
        m = np.zeros(shape)
        m[:shape[0]//2] = 1
    w = r.uniform(0.1, 10, size=shape)
    if case["zero_wt"]:
        # the weight map does not matter as long as each stamp has some weight
        w[::2] = 0
    obs = ngmix.Observation(
        r.normal(size=shape)*(not case["blank"]), weight=w, bmask=r.randint(0, 2**20, size=shape),
        noise=r.normal(size=shape), jacobian=make_jac(case["jac"], shape),
        psf=ngmix.Observation(np.ones((5, 5))))
    return m, obs


def model(m, case, x, y, box, fwhm):
    """aperture mean; None when no stamp pixel on the image is in the aperture"""
    ny, nx = m.shape
    if box <= 0:
        return 1.0, 0
    y0, x0 = max(0, int(y) - box//2 + 1), max(0, int(x) - box//2 + 1)
    if y0 >= ny or x0 >= nx:
        return 1.0, 0
    yy, xx = np.mgrid[y0:min(ny, y0+box), x0:min(nx, x0+box)]
    dvdrow, dvdcol, dudrow, dudcol = jac_mat(case["jac"])
    v = dvdrow*(yy-y) + dvdcol*(xx-x)
    u = dudrow*(yy-y) + dudcol*(xx-x)
    r2 = u*u + v*v
    sig2 = (fwhm/2.3548200450309493)**2
    lim = (2*fwhm)**2
    if np.any(np.abs(r2 - lim) < 1e-4*lim):
        return None, 0       # a pixel on the aperture edge within rounding
    k = r2 < lim
    if not k.any():
        return None, 0
    wt = np.exp(-0.5*r2[k]/sig2)
    return (wt*m[yy, xx][k]).sum()/wt.sum(), k.sum()


def check(case, ctx):
    m, obs = build(case)
    area = abs(obs.jacobian.det)
    fwhm = 1.2 if case["default"] else case["fwhm_pix"]*np.sqrt(area)
    dt = "f4" if case["f4"] else "f8"
    x = np.array([p[0] for p in case["pos"]], dtype=dt)
    y = np.array([p[1] for p in case["pos"]], dtype=dt)
    box = np.array([p[2] for p in case["pos"]], dtype="i4")
    before, m0 = snapshot(obs), m.copy()
    with np.errstate(all="ignore"):
        got = measure_mfrac(mfrac=m, x=x, y=y, box_sizes=box, obs=obs,
                            fwhm=None if case["default"] else fwhm)
    require(got.shape == x.shape, "%d positions, %s results", x.size, got.shape)
    require(same_snap(before, snapshot(obs)) and np.array_equal(m, m0),
            "inputs were modified")
    for i in range(x.size):
        exp, npix = model(m, case, float(x[i]), float(y[i]), int(box[i]), fwhm)
        if exp is None:
            ctx.note("aperture empty or ambiguous")
            continue
        y0, x0 = (max(0, int(v) - box[i]//2 + 1) for v in (float(y[i]), float(x[i])))
        if npix > 0 and not np.any(obs.weight[y0:y0+box[i], x0:x0+box[i]] > 0):
            ctx.note("no weight")
            continue
        if 0 < exp < 1:
            ctx.nontrivial()
        ctx.note("no stamp" if npix == 0 else "partly off"
                 if not (0 <= x[i] < case["nx"] and 0 <= y[i] < case["ny"]) else "in")
        require(abs(got[i] - exp) < 2e-4,
                "position %d: masked fraction %r, expected %r", i, got[i], exp)
        require(-1e-9 <= got[i] <= 1 + 1e-9, "outside [0, 1]")
        if npix > 0 and case["kind"] == "const":
            require(abs(got[i] - m[0, 0]) < 1e-9, "constant image not reproduced")


SUBS = [Sub("mean", cases(), check, 6000, 200000)]
