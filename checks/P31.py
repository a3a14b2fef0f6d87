"""P31: do_metadetect recovers the shear and undoes the artificial shears end to end"""
import numpy as np

from lib import e2e as E
from lib.harness import Sub, require
from metadetect.metadetect import do_metadetect

PROPERTY = "P31"
RULE = (
    "1-3 bands of images with 3-6 isolated round Gaussian galaxies of S/N 3000-20000, any "
    "shear up to 0.04, WCS orientation, parity and distortion, PSF shape, noise level, "
    "reference pixel and shear step, 1-2 fitters, with and without noise images, real "
    "detection and metacal; non-trivial: a shear above 0.005; distinct by full case"
)
SHEARS = {"noshear": (0, 0), "1p": (1, 0), "1m": (-1, 0), "2p": (0, 1), "2m": (0, -1)}


def check(c, ctx):
    mb = E.build(c)
    shape = E.shape_of(c)
    res = do_metadetect(E.config(c), mb, np.random.RandomState(c["seed"] % 1000))
    step = c["step"] or 0.01
    m, _ = E.jac_of(c, shape)
    cen = (np.array(shape) - 1)/2
    pos = E.positions(c)
    require(sorted(res) == sorted(SHEARS), "types %s", sorted(res))
    rows = {}
    for t, (s1, s2) in SHEARS.items():
        v = res[t]
        require(v is not None, "%s: nothing was found", t)
        A = np.linalg.solve(m, E.shear_matrix(s1*step, s2*step) @ m)
        want = cen + (pos - cen) @ A.T
        rows[t] = []
        for k, p in enumerate(want):
            d = np.hypot(v["sx_row"] - p[0], v["sx_col"] - p[1])
            near = np.flatnonzero(d < 4)
            require(len(near) > 0, "%s: galaxy %d at (row %s, col %s) is not found", t, k, *p)
            if len(near) > 1:
                ctx.note("split")
                return
            i = near[0]
            require(d[i] < 0.12, "%s: galaxy %d is at (%s, %s), expected (%s, %s)", t, k,
                    v["sx_row"][i], v["sx_col"][i], *p)
            q = pos[k]
            r0, c0 = v["sx_row_noshear"][i], v["sx_col_noshear"][i]
            require(np.hypot(r0 - q[0], c0 - q[1]) < 0.12, "%s: the position of galaxy %d "
                    "without shear is (%s, %s), expected (%s, %s)", t, k, r0, c0, *q)
            rows[t].append(i)
        require(len(v) < 2*len(want) + 2, "%s: %d rows for %d galaxies", t, len(v), len(want))
    g = np.array(c["g"])
    for f in c["fitters"]:
        k = E.kind(f)
        mean, err = {}, 0.0
        ok = np.ones(len(pos), dtype=bool)
        for t in SHEARS:
            ok &= res[t][k + "_flags"][rows[t]] == 0
        if not np.any(ok):
            ctx.note("no fit")
            continue
        for t in SHEARS:
            v = res[t][np.array(rows[t])[ok]]
            mean[t] = v[k + "_g"].mean(axis=0)
            cov = v[k + "_g_cov"]
            err = max(err, np.sqrt(np.max(np.diagonal(cov, axis1=1, axis2=2).sum(axis=0)))
                      / ok.sum())
        R = np.array([mean["1p"][0] - mean["1m"][0], mean["2p"][1] - mean["2m"][1]])/2/step
        cross = np.array([mean["2p"][0] - mean["2m"][0], mean["1p"][1] - mean["1m"][1]])/2/step
        require(np.all(R > 0.05), "%s: the response to shear is %s", k, R)
        require(np.all(np.abs(cross) < 0.02*R.mean() + 3*err/step), "%s: the response of one "
                "component to the other is %s (direct: %s)", k, cross, R)
        tol = 4e-4 + 0.02*np.hypot(*g) + 7*err/R.min()
        require(np.all(np.abs(mean["noshear"]/R - g) < tol), "%s: recovered shear %s, true "
                "%s (tolerance %s)", k, mean["noshear"]/R, g, tol)
        ctx.note(f["model"])
    ctx.note("%d bands" % c["nband"], c["psf"], "noise image" if c["noise"] else "own noise")
    if np.hypot(*g) > 0.005:
        ctx.nontrivial()


SUBS = [Sub("shear", E.scene_st(), check, 300, 6000)]
