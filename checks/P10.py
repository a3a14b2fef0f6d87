"""P10: joint fits (adaptive moments and Gaussian fits) over the shear bands"""
import numpy as np
import ngmix
from ngmix.gexceptions import BootPSFFailure, PSFFluxFailure
from hypothesis import strategies as st

from lib.gen import fl, rare, seeds
from lib.harness import Sub, require
from lib.obs import PLANES, gauss_image, jac_st, make_jac
from metadetect import fitting
from metadetect import procflags as pf
from metadetect.fitting import (
    fit_mbobs_admom, fit_mbobs_gauss, fit_mbobs_list_joint, make_coadd_obs,
)

PROPERTY = "P10"
RULE = (
    "1-4 bands (present, missing, two exposures, no weight, flagged mask bits, "
    "incompatible) with generated results and failures of the object and PSF fits, "
    "any shear bands in any order; plus noise-free Gaussians fit end to end; "
    "now and then "
    "several times larger, more or brighter; non-trivial: a fit ran on two or more bands, or something failed; distinct by "
    "full case"
)
INPUT_BITS = pf.MISSING_BAND | pf.INCONSISTENT_BANDS | pf.ZERO_WEIGHTS | pf.EDGE_HIT


@st.composite
def cases(draw):
    nband = draw(rare(st.integers(1, 4), st.integers(5, 6)))
    bands = []
    for _ in range(nband):
        bands.append({
            "state": draw(st.sampled_from(
                ["ok"]*14 + ["missing", "two", "zero", "edge"])),
            "lev": draw(rare(fl(-2, 2), fl(-12, 12))), "seed": draw(seeds),
            "pT": draw(fl(0.1, 2)), "pe1": draw(fl(-0.5, 0.5)),
            "pe2": draw(fl(-0.5, 0.5)), "pkey": draw(st.sampled_from("ge")),
            "pflags": draw(st.sampled_from([0]*12 + [4])),
        })
    sb = draw(st.one_of(st.none(), st.permutations(range(nband)).flatmap(
        lambda p: st.integers(1, nband).map(lambda k: list(p[:k])))))
    if draw(st.integers(0, 14)) == 0:
        sb = [0, nband]
    return {
        "which": draw(st.sampled_from(["am", "gauss", "gauss", "gausscoadd"])),
        "bands": bands, "shear_bands": sb, "n": draw(st.integers(4, 7)),
        "odd_jac": draw(st.integers(0, 9)) == 0,
        "symmetrize": draw(st.booleans()), "holes": draw(st.booleans()),
        "flagmask": draw(st.sampled_from([0, 1, 2**4 | 2])),
        "seed": draw(seeds),
        "obj": draw(st.sampled_from(["ok"]*10 + ["flag", "raise", "tflag"])),
        "psf": draw(st.sampled_from(
            ["ok"]*10 + ["flag", "raise", "boot", "flux"])),
    }


def build(c):
    n = c["n"]
    mbobs = ngmix.MultiBandObsList()
    for b, bd in enumerate(c["bands"]):
        ol = ngmix.ObsList()
        nobs = {"missing": 0, "two": 2}.get(bd["state"], 1)
        r = np.random.RandomState(bd["seed"])
        for _ in range(nobs):
            w = 10.0**bd["lev"]*r.uniform(0.5, 2, size=(n, n))
            if c["holes"]:
                w[r.uniform(size=(n, n)) < 0.1] = 0
                w[n//2, n//2] = 10.0**bd["lev"]
            if bd["state"] == "zero":
                w[:] = 0
            bm = np.zeros((n, n), dtype="i4")
            bm[r.uniform(size=(n, n)) < 0.3] = 8
            if bd["state"] == "edge" and c["flagmask"]:
                bm[r.randint(n), r.randint(n)] |= c["flagmask"]
            jac = ngmix.DiagonalJacobian(
                row=(n-1)/2, col=(n-1)/2,
                scale=0.3 if c["odd_jac"] and b == 1 else 0.25)
            psf = ngmix.Observation(
                r.uniform(size=(3, 3)) + 0.1, meta={"band": b},
                jacobian=ngmix.DiagonalJacobian(row=1, col=1, scale=0.25))
            ol.append(ngmix.Observation(
                r.normal(size=(n, n)), weight=w, bmask=bm, psf=psf, jacobian=jac,
                meta={"band": b}, ignore_zero_weight=bool(np.any(w > 0))))
        mbobs.append(ol)
    return mbobs


class Boom(RuntimeError):
    pass


class AmRunner:
    def __init__(self, c):
        self.c, self.seen = c, []

    def go(self, obs):
        c = self.c
        what = "obj" if obs.has_psf() else "psf"
        self.seen.append((what, obs))
        if c[what] in ("raise", "boot", "flux"):
            raise Boom()
        r = np.random.RandomState(c["seed"] + (what == "obj"))
        flags = 16 if c[what] == "flag" else 0
        return {
            "flags": flags, "flagstr": "",
            "T_flags": 8 if c[what] in ("flag", "tflag") else 0,
            "T": r.uniform(0.1, 2), "T_err": r.uniform(0.1, 2),
            "e": r.uniform(-0.5, 0.5, size=2), "s2n": r.uniform(5, 50),
            "e_cov": np.diag(r.uniform(0.1, 1, size=2)),
        }


class PsfRunner:
    def __init__(self, c):
        self.c = c

    def go(self, obs):
        c = self.c
        for ol in obs:
            for o in ol:
                if c["psf"] == "raise":
                    raise Boom()
                if c["psf"] == "boot":
                    raise BootPSFFailure("x")
                if c["psf"] == "flux":
                    raise PSFFluxFailure("x")
                bd = c["bands"][o.psf.meta["band"]]
                res = {"flags": 4 if c["psf"] == "flag" else bd["pflags"],
                       "T": bd["pT"]}
                e = np.array([bd["pe1"], bd["pe2"]])
                if bd["pkey"] == "e":
                    res["e"] = e
                else:
                    res["g"] = np.array(ngmix.shape.e1e2_to_g1g2(*e))
                o.psf.meta["result"] = res


class ObjRunner:
    def __init__(self, c):
        self.c, self.seen = c, []

    def go(self, obs):
        c = self.c
        self.seen.append(obs)
        if c["obj"] == "raise":
            raise Boom()
        r = np.random.RandomState(c["seed"])
        nb = len(obs)
        fx, fe = r.uniform(1, 9, size=nb), r.uniform(0.1, 1, size=nb)
        return {
            "flags": 16 if c["obj"] in ("flag", "tflag") else 0, "s2n": r.uniform(5, 9),
            "g": r.uniform(-0.5, 0.5, size=2), "T": r.uniform(0.1, 2),
            "g_cov": np.diag(r.uniform(0.1, 1, size=2)), "T_err": r.uniform(0.1, 2),
            "flux": fx if nb > 1 else fx[0], "flux_err": fe if nb > 1 else fe[0],
        }


def sym(w):
    ok = w > 0
    for k in (1, 2, 3):
        ok = ok & (np.rot90(w, k) > 0)
    return np.where(ok, w, 0)


def same(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


def planes_of(mb):
    return [[{n: np.array(getattr(o, n)) for n in PLANES if hasattr(o, n)}
             for o in ol] for ol in mb]


def check(c, ctx):
    mbobs = build(c)
    nband = len(mbobs)
    before = planes_of(mbobs)
    kw = dict(mbobs=mbobs, bmask_flags=c["flagmask"], rng=np.random.RandomState(1))
    if c["shear_bands"] is not None:
        kw["shear_bands"] = list(c["shear_bands"])
    am = c["which"] == "am"
    objr = AmRunner(c) if am else ObjRunner(c)
    with np.errstate(all="ignore"):
        if am:
            res = fit_mbobs_admom(runner=objr, symmetrize=c["symmetrize"], **kw)
        else:
            res = fit_mbobs_gauss(obj_runner=objr, psf_runner=PsfRunner(c),
                                  coadd=c["which"] == "gausscoadd", **kw)
    for a, b in zip(before, planes_of(mbobs)):
        for x, y in zip(a, b):
            require(all(np.array_equal(x[n], y[n]) for n in x), "inputs modified")
    require(res.shape == (1,), "one row expected")
    k = "am_" if am else "gauss_"
    r = res[0]
    sb = list(range(nband)) if c["shear_bands"] is None else c["shear_bands"]
    require(str(r["shear_bands"]) == "".join(str(s) for s in sorted(sb)),
            "shear_bands column %r", str(r["shear_bands"]))
    bits = 0
    for bd, ol in zip(c["bands"], before):
        if bd["state"] == "missing":
            bits |= pf.MISSING_BAND
        elif bd["state"] == "two":
            bits |= pf.INCONSISTENT_BANDS
        else:
            if not np.any(ol[0]["weight"] > 0):
                bits |= pf.ZERO_WEIGHTS
            if np.any(ol[0]["bmask"] & c["flagmask"]):
                bits |= pf.EDGE_HIT
    flags, of, pfl = int(r[k + "flags"]), int(r[k + "obj_flags"]), int(r[k + "psf_flags"])
    if bits == 0 and any(s >= nband for s in sb):
        bits |= pf.INCONSISTENT_BANDS
    coadding = am or c["which"] == "gausscoadd"
    if bits == 0 and coadding and len(sb) > 1:
        cobs, cflags = make_coadd_obs(mbobs, shear_bands=sb)
        bits |= cflags
    nofit = ("g", "T", "s2n", "psf_g", "psf_T", "T_ratio", "T_err", "band_flux")
    if bits:
        ctx.nontrivial()
        ctx.note("bad input")
        require(flags & bits == bits, "flags %d miss %d", flags, bits)
        require(flags & pf.NO_ATTEMPT, "no fit was tried but flags are %d", flags)
        require(not objr.seen, "a fit ran on unusable data")
        for n in nofit:
            require(np.all(np.isnan(r[k + n])), "%s without a fit", n)
        require(of != 0 and pfl != 0, "object/PSF flags zero without a fit")
        return
    if am:
        return check_am(c, ctx, mbobs, before, sb, r, objr)
    psf_bad = c["psf"] != "ok" or any(c["bands"][s]["pflags"] for s in sb)
    coadd = c["which"] == "gausscoadd"
    pe = np.array([[c["bands"][s]["pe1"], c["bands"][s]["pe2"]] for s in sb])
    pT = np.array([c["bands"][s]["pT"] for s in sb])
    if coadd:
        # the coadd PSF carries the metadata of the last shear band
        pe, pT = pe[-1:], pT[-1:]
        psf_bad = c["psf"] != "ok" or c["bands"][sb[-1]]["pflags"] != 0
    if psf_bad or c["obj"] == "raise":
        ctx.nontrivial()
        ctx.note("failed fit")
        bit = pf.PSF_FAILURE if psf_bad else pf.OBJ_FAILURE
        require(flags & bit, "flags %d miss %d", flags, bit)
        for n in ("g", "T", "band_flux"):
            require(np.all(np.isnan(r[k + n])), "%s of a failed fit", n)
        return
    if len(sb) > 1:
        ctx.nontrivial()
    require(len(objr.seen) == 1, "%d fits", len(objr.seen))
    got = objr.seen[0]
    require(len(got) == (1 if coadd else len(sb)), "%d bands were fit", len(got))
    if not coadd:
        for ol, s in zip(got, sb):
            require(np.array_equal(ol[0].image, before[s][0]["image"]),
                    "the fit did not get shear band %d", s)
    elif len(sb) > 1:
        require(np.array_equal(got[0][0].image, cobs.image), "the coadd was not fit")
    e = ObjRunner(c).go([None]*len(got))
    g1g2 = np.array([ngmix.shape.e1e2_to_g1g2(*x) for x in pe])
    wt = np.array([np.median(before[s][0]["weight"][before[s][0]["weight"] > 0])
                   for s in sb])
    if coadd:
        wt = np.ones(1)
    psfT = (wt*pT).sum()/wt.sum()
    psfg = ((wt*pT)[:, None]*g1g2).sum(axis=0)/(wt*pT).sum()
    require(pfl == 0 and same(r[k + "psf_T"], psfT) and same(r[k + "psf_g"], psfg),
            "PSF (%s, %s), expected (%s, %s)", r[k + "psf_T"], r[k + "psf_g"],
            psfT, psfg)
    bff = np.atleast_1d(r[k + "band_flux_flags"])
    bf, be = np.atleast_1d(r[k + "band_flux"]), np.atleast_1d(r[k + "band_flux_err"])
    require(of == e["flags"] and flags == e["flags"],
            "flags %d obj %d, expected %d", flags, of, e["flags"])
    for b in range(nband):
        if b not in sb:
            require(bff[b] == pf.NO_ATTEMPT and np.isnan(bf[b]),
                    "band %d was not fit but has flags %d", b, bff[b])
        else:
            require(bff[b] == e["flags"], "flux flags %d of band %d", bff[b], b)
    if e["flags"]:
        ctx.nontrivial()
        ctx.note("flagged fit")
        for n in ("g", "T", "s2n", "T_ratio"):
            require(np.all(np.isnan(r[k + n])), "%s of a flagged fit", n)
        return
    ctx.note("gauss ok", "coadd" if coadd else "bands")
    for n in ("g", "g_cov", "T", "T_err", "s2n"):
        require(same(r[k + n], e[n]), "%s is %s, the fit gave %s", n, r[k + n], e[n])
    require(same(r[k + "T_ratio"], e["T"]/psfT), "T_ratio")
    for i, s in enumerate(sb):
        j = 0 if coadd else i
        require(same(bf[s], np.atleast_1d(e["flux"])[j])
                and same(be[s], np.atleast_1d(e["flux_err"])[j]),
                "flux of band %d is not that of the fit", s)


def check_am(c, ctx, mbobs, before, sb, r, runner):
    k = "am_"
    flags, of, pfl = int(r[k + "flags"]), int(r[k + "obj_flags"]), int(r[k + "psf_flags"])
    if len(sb) > 1:
        ctx.nontrivial()
    if c["psf"] in ("raise", "boot", "flux"):
        ctx.nontrivial()
        require(flags & pf.PSF_FAILURE and flags & pf.NO_ATTEMPT,
                "PSF fit failed, flags %d", flags)
        require(np.all(np.isnan(r[k + "g"])) and np.isnan(r[k + "psf_T"]),
                "values of a failed fit")
        return
    e = {w: AmRunner(dict(c, obj=c["obj"] if c["obj"] != "raise" else "ok")).go(
        ngmix.Observation(np.zeros((2, 2)), psf=ngmix.Observation(np.ones((2, 2)))
                          if w == "obj" else None)) for w in ("obj", "psf")}
    cobs = make_coadd_obs(mbobs, shear_bands=sb)[0]
    seen = dict(runner.seen)
    require(set(seen) == {"obj", "psf"} and len(runner.seen) == 2, "fits that ran")
    require(same(seen["psf"].image, cobs.psf.image), "PSF that was fit")
    require(same(seen["obj"].image, cobs.image), "image that was fit")
    ew = sym(cobs.weight) if c["symmetrize"] else cobs.weight
    require(same(seen["obj"].weight, ew), "weights that were fit")
    pflags = e["psf"]["flags"]
    require(pfl == pflags, "psf flags %d, expected %d", pfl, pflags)
    if pflags == 0:
        require(same(r[k + "psf_g"], e["psf"]["e"])
                and same(r[k + "psf_T"], e["psf"]["T"]), "PSF values")
    else:
        ctx.nontrivial()
        require(np.isnan(r[k + "psf_T"]) and np.isnan(r[k + "T_ratio"]), "PSF values")
    if c["obj"] == "raise":
        ctx.nontrivial()
        require(flags & pf.OBJ_FAILURE, "object fit failed, flags %d", flags)
        require(np.all(np.isnan(r[k + "g"])) and np.isnan(r[k + "T"]), "values")
        return
    eo = e["obj"]
    require(of == eo["flags"] and r[k + "T_flags"] == eo["T_flags"],
            "object flags %d T_flags %d", of, r[k + "T_flags"])
    require(flags == (of | pfl), "flags %d, obj %d psf %d", flags, of, pfl)
    if eo["flags"] == 0:
        ctx.note("am ok")
        require(same(r[k + "g"], eo["e"]) and same(r[k + "s2n"], eo["s2n"])
                and same(r[k + "g_cov"], eo["e_cov"]), "shape values")
    else:
        ctx.nontrivial()
        require(np.all(np.isnan(r[k + "g"])), "shape of a flagged fit")
    if eo["T_flags"] == 0:
        require(same(r[k + "T"], eo["T"]) and same(r[k + "T_err"], eo["T_err"]),
                "size values")
        if pflags == 0:
            require(same(r[k + "T_ratio"], eo["T"]/e["psf"]["T"]), "T_ratio")
    else:
        require(np.isnan(r[k + "T"]) and np.isnan(r[k + "T_ratio"]), "flagged size")


# ----------------------------------------------------------------------------
@st.composite
def real_cases(draw):
    nband = draw(st.integers(1, 3))
    sb = draw(st.one_of(st.none(), st.permutations(range(nband)).flatmap(
        lambda p: st.integers(1, nband).map(lambda k: list(p[:k])))))
    objs = [{
        "T": draw(fl(0.3, 1.2)), "g1": draw(fl(-0.3, 0.3)), "g2": draw(fl(-0.3, 0.3)),
        "flux": [draw(fl(20, 200)) for _ in range(nband)],
        "miss": draw(st.sampled_from([None]*6 + [0])),
    } for _ in range(draw(st.integers(0, 2)))]
    return {"name": draw(st.sampled_from(["am", "admom", "gauss", "gauss"])),
            "coadd": draw(st.booleans()), "objs": objs, "shear_bands": sb,
            "nband": nband, "psfT": draw(fl(0.3, 0.6)), "seed": draw(seeds),
            "pg": draw(fl(-0.1, 0.1)), "jac": draw(jac_st(0.1))}


def check_real(c, ctx):
    n = 33
    rng = np.random.RandomState(c["seed"])
    j = dict(c["jac"], scale=0.25, drow=0, dcol=0)
    jac = make_jac(j, (n, n))
    cen = (n - 1)/2
    mbl = []
    for o in c["objs"]:
        mb = ngmix.MultiBandObsList()
        for b in range(c["nband"]):
            ol = ngmix.ObsList()
            if o["miss"] != b:
                pim = gauss_image((n, n), cen, cen, jac, c["psfT"], c["pg"], 0.0, 1.0)
                e1, e2 = ngmix.shape.g1g2_to_e1e2(o["g1"], o["g2"])
                p1, p2 = ngmix.shape.g1g2_to_e1e2(c["pg"], 0.0)
                T = o["T"] + c["psfT"]
                E1 = (e1*o["T"] + p1*c["psfT"])/T
                E2 = (e2*o["T"] + p2*c["psfT"])/T
                g1, g2 = ngmix.shape.e1e2_to_g1g2(E1, E2)
                im = gauss_image((n, n), cen, cen, jac, T, g1, g2, o["flux"][b])
                psf = ngmix.Observation(
                    pim + rng.normal(size=pim.shape, scale=1e-7), jacobian=jac,
                    weight=np.full((n, n), 1e14))
                ol.append(ngmix.Observation(
                    im + rng.normal(size=im.shape, scale=1e-4), jacobian=jac, psf=psf,
                    weight=np.full((n, n), 1e8), bmask=np.zeros((n, n), dtype="i4")))
            mb.append(ol)
        mbl.append(mb)
    kw = dict(fitter_name=c["name"], bmask_flags=0, coadd=c["coadd"])
    if c["shear_bands"] is not None:
        kw["shear_bands"] = c["shear_bands"]
    res = fit_mbobs_list_joint(
        mbobs_list=mbl, rng=np.random.RandomState(c["seed"]), **kw)
    try:
        fit_mbobs_list_joint(mbobs_list=mbl, rng=rng, **dict(kw, fitter_name="moments"))
    except RuntimeError:
        pass
    else:
        require(False, "unknown fitter accepted")
    if not mbl:
        require(res is None, "no objects must give None")
        return
    require(res.shape == (len(mbl),), "one row per object")
    k = "gauss_" if c["name"] == "gauss" else "am_"
    sb = list(range(c["nband"])) if c["shear_bands"] is None else c["shear_bands"]
    for i, o in enumerate(c["objs"]):
        r = res[i]
        if o["miss"] is not None:
            require(r[k + "flags"] & pf.MISSING_BAND, "missing band not flagged")
            continue
        if r[k + "flags"] != 0:
            ctx.note("flagged fit")
            continue
        ctx.nontrivial()
        ctx.note(c["name"])
        if k == "am_":
            T = o["T"] + c["psfT"]
            require(abs(r["am_T"]/T - 1) < 0.02 and abs(
                r["am_psf_T"]/c["psfT"] - 1) < 0.02, "sizes %r %r, true %r %r",
                r["am_T"], r["am_psf_T"], T, c["psfT"])
            e1, e2 = ngmix.shape.g1g2_to_e1e2(o["g1"], o["g2"])
            p1, p2 = ngmix.shape.g1g2_to_e1e2(c["pg"], 0.0)
            tru = np.array([(e1*o["T"] + p1*c["psfT"])/T, e2*o["T"]/T])
            require(np.allclose(r["am_g"], tru, atol=0.01), "ellipticity %s, true %s",
                    r["am_g"], tru)
            require(np.allclose(r["am_psf_g"], [p1, p2], atol=0.01), "PSF ellipticity")
        else:
            # the unit-width centre and the 0.3-wide shape priors do not move
            # fits of such signal to noise
            require(abs(r["gauss_T"] - o["T"]) < 0.02*(o["T"] + c["psfT"]),
                    "T %r, true %r", r["gauss_T"], o["T"])
            require(np.allclose(r["gauss_g"], [o["g1"], o["g2"]], atol=0.02),
                    "shape %s, true %s", r["gauss_g"], [o["g1"], o["g2"]])
            f = np.atleast_1d(r["gauss_band_flux"])
            for s in sb:
                tru = o["flux"][s] if not c["coadd"] else np.mean(
                    [o["flux"][q] for q in sb])
                require(abs(f[s]/tru - 1) < 0.02, "flux of band %d: %r, true %r",
                        s, f[s], tru)


SUBS = [Sub("generated", cases(), check, 5000, 150000),
        Sub("gaussians", real_cases(), check_real, 240, 8000)]
