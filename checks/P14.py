"""P14: positions, masks, masked fractions and PSF columns of the output rows"""
import copy

import numpy as np
from ngmix.shape import g1g2_to_e1e2

from checks.P05 import model as mfrac_model
from checks.P06 import model as shear_model
from checks.P13 import expect_none, run
from lib import driver as D
from lib.harness import Sub, require
from lib.obs import make_jac
from metadetect import procflags as pf

PROPERTY = "P14"
RULE = (
    "the worlds of P13 without faults other than a failing PSF; every row of every "
    "type is compared; now and then "
    "several times larger, more or brighter; non-trivial: some row has a mask bit, a masked fraction "
    "strictly between 0 and 1, or moved by unshearing; distinct by full case"
)


def or_region(mask, row, col, reg):
    """OR of the mask within reg pixels; None when rounding is ambiguous"""
    ny, nx = mask.shape
    for v in (row, col):
        if abs(v - np.floor(v) - 0.5) < 1e-4:
            return None
    r = min(max(int(np.rint(row)), 0), ny-1)
    c = min(max(int(np.rint(col)), 0), nx-1)
    if reg <= 1:
        reg = 0
    sub = mask[max(r-reg, 0):r+reg+1, max(c-reg, 0):c+reg+1]
    return int(np.bitwise_or.reduce(sub, axis=None))


def check(w, ctx):
    mbobs = D.build_mbobs(w)
    if expect_none(w, mbobs) is not None:
        return
    world = D.World(w, mbobs)
    conf = w["conf"]
    res = run(w, mbobs, world, copy.deepcopy(conf))
    shape = (w["ny"], w["nx"])
    jac = make_jac(w["jac"], shape)
    breg = conf.get("mask_region", 0)
    oreg = conf.get("ormask_region", 0)
    if oreg <= 1:
        oreg = breg
    first = w["fitters"][0]
    fwhm = conf.get("mfrac_fwhm", first.get("weight", {}).get("fwhm", 1.2))
    for t in world.types:
        if res[t] is None:
            continue
        pos = 0
        for i, sb in enumerate(world.shear):
            cat = D.catalog(w, t, world.det[i])
            rows = res[t][pos:pos+cat.size]
            pos += cat.size
            if rows.size == 0:
                continue
            obs = [mbobs[b][0] for b in sb]
            om = np.bitwise_or.reduce([o.ormask for o in obs])
            bm = np.bitwise_or.reduce([o.bmask for o in obs])
            wt = np.array([np.median(o.weight[o.weight > 0]) for o in obs])
            mf = sum(x*(o.mfrac if o.has_mfrac() else 0*o.image)
                     for x, o in zip(wt, obs))/wt.sum()
            mx = np.array([o.weight.max() for o in obs])
            check_rows(w, ctx, t, sb, cat, rows, om, bm, mf, mx, jac, breg, oreg, fwhm)


def check_rows(w, ctx, t, sb, cat, rows, om, bm, mf, mx, jac, breg, oreg, fwhm):
    shape = om.shape
    what = "%s, shear bands %s" % (t, sb)
    case = {"type": t, "step": w["conf"]["metacal"].get("step"), "jac": w["jac"]}
    sr, sc = rows["sx_row"], rows["sx_col"]
    require(np.allclose(sc, cat["x"], atol=1e-3) and np.allclose(sr, cat["y"], atol=1e-3),
            "%s: positions", what)
    er, ec = shear_model(case, sr, sc, shape, jac, True)
    require(np.allclose(rows["sx_row_noshear"], er, atol=2e-3)
            and np.allclose(rows["sx_col_noshear"], ec, atol=2e-3),
            "%s: unsheared positions (%s, %s), expected (%s, %s)", what,
            rows["sx_row_noshear"], rows["sx_col_noshear"], er, ec)
    if not np.allclose(er, sr, atol=1e-3):
        ctx.nontrivial()
    require(np.allclose(rows["mfrac_img"], mf.mean(), atol=1e-6),
            "%s: mfrac_img %s, expected %r", what, rows["mfrac_img"], mf.mean())
    for n, mask, reg in (("ormask", om, oreg), ("bmask", bm, breg)):
        for suf in ("", "_noshear"):
            for k in range(rows.size):
                e = or_region(mask, float(rows["sx_row" + suf][k]),
                              float(rows["sx_col" + suf][k]), reg)
                if e is None:
                    continue
                if e:
                    ctx.nontrivial()
                    ctx.note("mask bit")
                require(rows[n + suf][k] == e, "%s: %s%s is %d, expected %d", what, n,
                        suf, rows[n + suf][k], e)
    for suf in ("", "_noshear"):
        for k in range(rows.size):
            got = rows["mfrac" + suf][k]
            if not np.any(mf > 0):
                e = 0.0
            else:
                e, npix = mfrac_model(mf, case, float(rows["sx_col" + suf][k]),
                                      float(rows["sx_row" + suf][k]),
                                      int(D.boxes(w, cat)[k]), fwhm)
            if e is None:
                continue
            if 0 < e < 1:
                ctx.nontrivial()
                ctx.note("partly masked")
            require(abs(got - e) < 1e-3, "%s: mfrac%s is %r, expected %r", what, suf,
                    got, e)
    # the original PSF, averaged with the peak weights
    if w["fault"] == "badpsf":
        ctx.note("bad PSF")
        require(np.all(rows["psfrec_flags"] & pf.PSF_FAILURE),
                "%s: psfrec_flags %s for an unmeasurable PSF", what,
                rows["psfrec_flags"])
        require(np.all(np.isnan(rows["psfrec_g"])) and np.all(np.isnan(rows["psfrec_T"])),
                "%s: values of an unmeasurable PSF", what)
        return
    e = np.array([g1g2_to_e1e2(*w["psfg"][b]) for b in sb])
    T = np.array([w["psfT"][b] for b in sb])
    require(np.all(rows["psfrec_flags"] == 0), "%s: psfrec_flags %s", what,
            rows["psfrec_flags"])
    eT = (mx*T).sum()/mx.sum()
    ee = (mx[:, None]*e).sum(axis=0)/mx.sum()
    require(np.allclose(rows["psfrec_T"], eT, rtol=0.01),
            "%s: psfrec_T %s, expected %r", what, rows["psfrec_T"], eT)
    require(np.allclose(rows["psfrec_g"], ee, atol=0.006),
            "%s: psfrec_g %s, expected %s", what, rows["psfrec_g"], ee)
    ctx.note("psfrec")


def worlds():
    return D.world_st(joint=False).map(lambda w: dict(
        w, fault=w["fault"] if w["fault"] == "badpsf" else None,
        nobj=[max(n, 1) for n in w["nobj"]]))


SUBS = [Sub("annotate", worlds(), check, 900, 20000)]
