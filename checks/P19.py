"""P19: LSST coadds over bands"""
import numpy as np
import ngmix
from hypothesis import strategies as st

import lsst.afw.image as afw_image
import lsst.geom as geom
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import Sub, require
from metadetect.lsst import util

PROPERTY = "P19"
RULE = (
    "1-4 exposures with the same origin and shape but different noise levels, variance "
    "maps, masks and (position-dependent) PSFs; 1-4 band stamps likewise; now and then "
    "several times larger, more or brighter; non-trivial: "
    "at least two bands with different weights; distinct by full case"
)


def check_exps(c, ctx):
    w = c["world"]
    g = w["g"]
    exps = L.build_exps(w)
    for i in c["dead"]:
        exps[i % len(exps)].variance.array[:, :] = np.inf
    before = L.snap(exps)
    co = util.coadd_exposures(exps)
    require(L.same(before, L.snap(exps)), "the exposures were modified")
    ims = [s[0].astype(float) for s in before]
    vs = [s[2].astype(float) for s in before]
    wt = []
    for v in vs:
        wt.append(1/np.median(v[v > 0]))
    wsum = np.sum(wt)
    if wsum == 0:
        require(co is None, "there is no weight, but there is a coadd")
        ctx.note("no weight")
        return
    require(co is not None, "no coadd")
    if len(exps) > 1 and np.ptp(wt) > 0:
        ctx.nontrivial()
    valid = [v > 0 for v in vs]
    allv = np.all(valid, axis=0)
    exp = sum(x*i for x, i in zip(wt, ims))/wsum
    scale = max(np.abs(i).max() for i in ims)
    require(np.allclose(co.image.array[allv], exp[allv], atol=1e-5*scale),
            "the image is not the mean weighted by 1/median variance")
    iv = np.zeros(ims[0].shape)
    for v, ok in zip(vs, valid):
        iv[ok] += 1/v[ok]
    cv = co.variance.array.astype(float)
    some = iv > 0
    require(np.allclose(cv[some], 1/iv[some], rtol=1e-5), "variance is not 1/sum(1/var)")
    require(np.all(np.isposinf(cv[~some])), "pixels without data have finite variance")
    om = np.bitwise_or.reduce([s[1] for s in before])
    require(np.array_equal(co.mask.array, om), "the mask is not the OR of the masks")
    require(co.getWcs() is before[0][4] and co.getXY0() == before[0][5],
            "WCS or origin changed")
    require(co.image.array.dtype == np.float32, "not an ExposureF")
    if not isinstance(co, afw_image.ExposureF):
        require(False, "not an ExposureF")
    xc, yc = g["x0"] + (g["nx"] - 1)/2, g["y0"] + (g["ny"] - 1)/2
    pim = sum(x*s[3].array(xc, yc) for x, s in zip(wt, before))
    pim = pim/pim.sum()
    got = co.getPsf().computeKernelImage(geom.Point2D(xc, yc)).array
    require(got.shape == pim.shape and np.allclose(got, pim, atol=1e-6),
            "the PSF is not the normalized weighted mean of the central PSFs")


ec = st.fixed_dictionaries({
    "world": L.mbexp_st(1, 4),
    "dead": st.sampled_from([[]]*6 + [[0], [1], [0, 1], [0, 1, 2, 3]]),
})


def check_mbobs(c, ctx):
    r = np.random.RandomState(c["seed"])
    n, pn = c["n"], c["pn"]
    mb = ngmix.MultiBandObsList()
    jac = ngmix.DiagonalJacobian(row=n/2, col=n/3, scale=c["scale"])
    ims, wts, psfs = [], [], []
    for i, lev in enumerate(c["lev"]):
        im = r.normal(size=(n, n))*np.sqrt(lev)
        wt = np.full((n, n), 1/lev)
        if c["vary"]:
            wt *= r.uniform(0.5, 1.5, size=(n, n))
        if c["holes"]:
            wt[r.uniform(size=(n, n)) < 0.2] = 0
            wt[0, 0] = 1/lev
        ps = r.uniform(0.01, 1, size=(pn, pn))
        ps /= ps.sum()/c["norm"]
        o = ngmix.Observation(
            im, weight=wt, jacobian=jac, meta={"band%d" % i: i},
            psf=ngmix.Observation(ps, weight=np.ones((pn, pn)),
                                  jacobian=ngmix.DiagonalJacobian(
                                      row=(pn-1)/2, col=(pn-1)/2, scale=c["scale"])))
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
        ims.append(im.copy())
        wts.append(wt.copy())
        psfs.append(ps.copy())
    co = util.coadd_mbobs(mb)
    for ol, im, wt, ps in zip(mb, ims, wts, psfs):
        require(np.array_equal(ol[0].image, im) and np.array_equal(ol[0].weight, wt)
                and np.array_equal(ol[0].psf.image, ps), "the stamps were modified")
    med = [np.median(x[x > 0]) for x in wts]
    if len(med) > 1 and np.ptp(med) > 0:
        ctx.nontrivial()
    exp = sum(m*i for m, i in zip(med, ims))/sum(med)
    require(np.allclose(co.image, exp, atol=1e-5*np.abs(exp).max() + 1e-5*max(
        np.abs(i).max() for i in ims)), "image is not the weighted mean")
    require(np.allclose(co.weight, sum(wts), rtol=1e-5, atol=1e-9),
            "weight is not the sum of the weights")
    pe = sum(m*p for m, p in zip(med, psfs))
    require(np.allclose(co.psf.image, pe/pe.sum(), rtol=1e-6),
            "PSF is not the normalized weighted mean")
    for a, b in ((co, mb[-1][0]), (co.psf, mb[-1][0].psf)):
        require((a.jacobian.row0, a.jacobian.col0) == (b.jacobian.row0, b.jacobian.col0)
                and np.allclose(L.jac_matrix(a.jacobian), L.jac_matrix(b.jacobian)),
                "WCS differs")
    require(np.all(co.psf.weight > 0), "PSF weight")
    require(all(co.meta.get("band%d" % i) == i for i in range(len(med))), "metadata lost")


mc = st.fixed_dictionaries({
    "seed": seeds, "n": st.integers(2, 20), "pn": st.sampled_from([3, 5, 9]),
    "scale": fl(0.1, 0.5), "lev": st.lists(
        st.sampled_from([0.01, 0.5, 2.0, 30.0]), min_size=1, max_size=4),
    "vary": st.booleans(), "holes": st.booleans(), "norm": st.sampled_from([1.0, 3.0]),
})

SUBS = [Sub("exposures", ec, check_exps, 4000, 40000),
        Sub("stamps", mc, check_mbobs, 3000, 20000)]
