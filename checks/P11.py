"""P11: four-fold symmetric weights"""
import numpy as np
import ngmix
from hypothesis import strategies as st

from lib.gen import rare, seeds
from lib.harness import Sub, require
from lib.obs import same_snap, snapshot
from metadetect.fitting import symmetrize_obs_weights

PROPERTY = "P11"
RULE = (
    "square stamps of 1-24 pixels with random, single, row, quadrant or full zero-"
    "weight patterns and optional planes; now and then "
    "several times larger, more or brighter; non-trivial: some but not all weights "
    "survive; distinct by full case"
)

cases = st.fixed_dictionaries({
    "n": rare(st.integers(1, 24), st.integers(1, 100)),
    "lev": rare(st.just(0), st.integers(-15, 15)), "seed": seeds,
    "pattern": st.sampled_from(["none", "random", "random", "one", "row", "quadrant",
                                "all", "chess"]),
    "frac": st.sampled_from([0.02, 0.1, 0.4]), "const": st.booleans(),
    "planes": st.booleans(), "psf": st.booleans(),
})


def check(c, ctx):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    w = np.full((n, n), 2.5) if c["const"] else r.uniform(0.1, 9, size=(n, n))
    w *= 10.0**c["lev"]
    p = c["pattern"]
    if p == "random":
        w[r.uniform(size=(n, n)) < c["frac"]] = 0
    elif p == "one":
        w[r.randint(n), r.randint(n)] = 0
    elif p == "row":
        w[r.randint(n)] = 0
    elif p == "quadrant":
        w[:n//2, :n//2] = 0
    elif p == "all":
        w[:] = 0
    elif p == "chess":
        w[np.add(*np.mgrid[:n, :n]) % 2 == 0] = 0
    kw = {}
    if c["planes"]:
        kw = dict(bmask=r.randint(0, 2**20, size=(n, n)), mfrac=r.uniform(size=(n, n)),
                  ormask=r.randint(0, 2**20, size=(n, n)), noise=r.normal(size=(n, n)))
    if c["psf"]:
        kw["psf"] = ngmix.Observation(r.uniform(size=(3, 3)))
    obs = ngmix.Observation(
        r.normal(size=(n, n)), weight=w, meta={"a": 1},
        ignore_zero_weight=bool(np.any(w > 0)), **kw)
    before = snapshot(obs)
    out = symmetrize_obs_weights(obs)
    require(out is not obs and same_snap(before, snapshot(obs)),
            "the input observation was modified")
    exp = np.zeros_like(w)
    for i in range(n):
        for j in range(n):
            orbit = [(i, j), (j, n-1-i), (n-1-i, n-1-j), (n-1-j, i)]
            if all(w[q] > 0 for q in orbit):
                exp[i, j] = w[i, j]
    require(np.array_equal(out.weight, exp),
            "weights are not zero exactly where a 90 degree rotation has none")
    after = snapshot(out)
    for k in before:
        if k not in ("weight", "izw"):
            require(np.array_equal(before[k], after[k]), "%s changed", k)
    require(out.has_psf() == c["psf"] and out.meta["a"] == 1
            and repr(out.jacobian) == repr(obs.jacobian), "PSF, metadata or WCS lost")
    if np.any(exp > 0):
        if np.any(exp == 0):
            ctx.nontrivial()
        require(out.ignore_zero_weight == obs.ignore_zero_weight,
                "zero-weight handling changed")
    else:
        ctx.note("nothing left")
        require(out.ignore_zero_weight is False or not out.ignore_zero_weight,
                "an observation without weight must not ignore zero-weight pixels")
    # idempotent and rotation covariant
    again = symmetrize_obs_weights(out)
    require(np.array_equal(again.weight, out.weight), "not idempotent")
    out2 = out.weight
    require(np.array_equal(np.rot90(out2 > 0), out2 > 0), "not symmetric")
    if obs.ignore_zero_weight:
        with out.writeable():
            out.image[:] = 7
        require(same_snap(before, snapshot(obs)), "copy shares memory with the input")


SUBS = [Sub("symmetrize", cases, check, 16000, 300000)]
