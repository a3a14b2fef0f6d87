"""P09: band-averaged moments (weighted average over the shear bands)"""
import numpy as np
import ngmix
import ngmix.prepsfmom
from hypothesis import strategies as st

from lib.gen import fl, rare, seeds
from lib.harness import Sub, require
from lib.obs import same_snap, snapshot
from metadetect import procflags as pf
from metadetect.fitting import fit_mbobs_list_wavg, fit_mbobs_wavg

PROPERTY = "P09"
RULE = (
    "1-5 bands (present, missing, without weight, with flagged mask bits) whose "
    "per-band moment fits are generated (any sums, covariances, normalizations "
    "present/absent/NaN, missing entries, per-band flux failures), any subset of "
    "shear bands, with/without symmetrization and regularization; now and then "
    "several times larger, more or brighter; non-trivial: two "
    "or more usable shear bands or some failure present; distinct by full case"
)


@st.composite
def fit_st(draw, psf=False):
    kind = draw(st.sampled_from(["ok"]*12 + ["nomom", "noflux", "negflux", "zeroflux",
                                             "negT", "zerovar", "nocov"]))
    return {
        "kind": kind, "seed": draw(seeds),
        "flux": draw(fl(0.05, 50)), "T": draw(fl(0.05, 4)),
        "e1": draw(fl(-0.6, 0.6)), "e2": draw(fl(-0.6, 0.6)),
        "norm": draw(st.sampled_from(["num", "num", "num", "none", "nan"])),
        "normval": draw(fl(0.2, 80)),
        "fflags": draw(st.sampled_from([0, 0, 0, 2, 2**9])),
        "flags": draw(st.sampled_from([0, 0, 0, 4])),
    }


@st.composite
def band_st(draw):
    return {
        "state": draw(st.sampled_from(["ok"]*9 + ["missing", "zero", "edge", "asym"])),
        "obj": draw(fit_st()), "psf": draw(fit_st(psf=True)),
        "lev": draw(rare(fl(-2, 2), fl(-12, 12))), "seed": draw(seeds), "holes": draw(st.booleans()),
    }


@st.composite
def cases(draw):
    nband = draw(rare(st.integers(1, 5), st.integers(5, 6)))
    nobj = draw(rare(st.integers(0, 3), st.integers(3, 12), 24))
    sb = draw(st.one_of(st.none(), st.permutations(range(nband)).flatmap(
        lambda p: st.integers(1, nband).map(lambda k: list(p[:k])))))
    return {
        "n": draw(st.integers(3, 8)), "nband": nband, "shear_bands": sb,
        "objs": [[draw(band_st()) for _ in range(nband)] for _ in range(nobj)],
        "reg": draw(st.sampled_from([0, 0, 0.4, 0.8, 1.5])),
        "symmetrize": draw(st.booleans()), "prepsf": draw(st.booleans()),
        "flagmask": draw(st.sampled_from([0, 1, 2**3 | 1, 2**30])),
        "kind": draw(st.sampled_from(["wmom", "pgauss", "x"])),
        "nsum": draw(st.sampled_from([6, 6, 7])),
        # pre-PSF moments have no first moments
        "nofirst": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
    }


def make_fit(f, nsum, nofirst=0):
    r = np.random.RandomState(f["seed"])
    s = np.array([r.normal(), r.normal(), f["e1"]*f["T"], f["e2"]*f["T"], f["T"], 1.0])
    flux = f["flux"]
    if f["kind"] == "negflux":
        flux = -flux
    s *= flux
    if f["kind"] == "zeroflux":
        s[5] = 0
    if f["kind"] == "negT":
        s[4] *= -1
    a = r.normal(size=(nsum, nsum))
    cov = a @ a.T*1e-3*flux**2 + np.eye(nsum)*1e-4*flux**2
    if f["kind"] == "zerovar":
        cov[:] = 0
    s = np.concatenate([s, r.normal(size=nsum-6)])
    for k in (0, 1):
        if nofirst >> k & 1:
            s[k] = np.nan
    d = {"sums": s, "sums_cov": cov, "flags": f["flags"], "flagstr": "x",
         "flux": r.normal(), "flux_err": r.uniform(0.1, 1),
         "flux_flags": f["fflags"]}
    if f["norm"] != "none":
        d["sums_norm"] = f["normval"] if f["norm"] == "num" else np.nan
    if f["kind"] == "nomom":
        del d["sums"]
    if f["kind"] == "nocov":
        del d["sums_cov"]
    if f["kind"] == "noflux":
        del d["flux"]
    return d


class Fake:
    def _go(self, obs, kw):
        self.calls.append((obs.meta["key"], obs.weight.copy(), obs.image.copy(), kw))
        return {k: (v.copy() if hasattr(v, "copy") else v)
                for k, v in self.table[obs.meta["key"]].items()}


class FakePost(Fake):
    def __init__(self, kind, table):
        self.kind, self.table, self.calls = kind, table, []

    def go(self, obs, **kw):
        return self._go(obs, kw)


class FakePre(Fake, ngmix.prepsfmom.PrePSFMom):
    def __init__(self, kind, table):
        self.kind, self.table, self.calls = kind, table, []

    def go(self, obs, **kw):
        return self._go(obs, kw)


def build(c):
    n = c["n"]
    table, mbl, meta = {}, [], []
    flagmask = c["flagmask"]
    for i, bands in enumerate(c["objs"]):
        mbobs = ngmix.MultiBandObsList()
        for b, bd in enumerate(bands):
            ol = ngmix.ObsList()
            if bd["state"] != "missing":
                r = np.random.RandomState(bd["seed"])
                w = 10.0**bd["lev"]*r.uniform(0.5, 2, size=(n, n))
                bm = np.zeros((n, n), dtype="i4")
                bm[r.uniform(size=(n, n)) < 0.3] |= 2**20 if flagmask != 2**20 else 2
                bm &= ~flagmask
                if bd["state"] == "zero":
                    w[:] = 0
                elif bd["state"] == "asym":
                    w[:] = 0
                    w[0, 1 % n] = 10.0**bd["lev"]
                elif bd["holes"]:
                    w[r.uniform(size=(n, n)) < 0.15] = 0
                    w[n//2, n//2] = max(w[n//2, n//2], 10.0**bd["lev"])
                if bd["state"] == "edge" and flagmask:
                    bits = [k for k in range(31) if flagmask >> k & 1]
                    bm[r.randint(n), r.randint(n)] |= 1 << bits[r.randint(len(bits))]
                psf = ngmix.Observation(r.uniform(size=(3, 3)) + 0.1,
                                        meta={"key": "p%d.%d" % (i, b)})
                ol.append(ngmix.Observation(
                    r.normal(size=(n, n)), weight=w, bmask=bm, psf=psf,
                    ignore_zero_weight=bool(np.any(w > 0)),
                    meta={"key": "o%d.%d" % (i, b)}))
                table["p%d.%d" % (i, b)] = make_fit(
                    bd["psf"], c["nsum"], c.get("nofirst", 0))
                table["o%d.%d" % (i, b)] = make_fit(
                    bd["obj"], c["nsum"], c.get("nofirst", 0))
            mbobs.append(ol)
        mbl.append(mbobs)
    return mbl, table


def sym(w):
    ok = w > 0
    for k in (1, 2, 3):
        ok = ok & (np.rot90(w, k) > 0)
    return np.where(ok, w, 0)


def ratio_err2(a, b, va, vb, cab):
    """variance of a/b"""
    return va/b**2 + a*a*vb/b**4 - 2*a*cab/b**3


def model(c, bands, obss, table, i, sb):
    """expected row: dict"""
    out = {"bits": 0, "band": [], "psf_bits": 0, "fits": []}
    use = []
    for b, obs in enumerate(obss):
        band = {"bits": 0, "flux": np.nan, "err": np.nan, "other": 0}
        w = None
        if obs is None:
            band["bits"] |= pf.MISSING_BAND
        else:
            w = sym(obs["weight"]) if c["symmetrize"] else obs["weight"]
            if not np.any(w > 0):
                band["bits"] |= pf.ZERO_WEIGHTS
            if np.any(obs["bmask"] & c["flagmask"]):
                band["bits"] |= pf.EDGE_HIT
        good = band["bits"] == 0
        fo = table.get("o%d.%d" % (i, b)) if good else None
        fp = table.get("p%d.%d" % (i, b)) if good else None
        if good:
            out["fits"].append((b, w))
            if "flux" in fo:
                band["flux"], band["err"] = fo["flux"], fo["flux_err"]
                band["other"] = fo["flux_flags"]
            else:
                band["bits"] |= pf.NOMOMENTS_FAILURE
        if b in sb:
            out["bits"] |= band["bits"] & ~pf.NOMOMENTS_FAILURE
            if good:
                okm = True
                for f, w_ in ((fo, "bits"), (fp, "psf_bits")):
                    if "sums" not in f or "sums_cov" not in f:
                        out[w_] |= pf.NOMOMENTS_FAILURE
                        okm = False
                if okm:
                    use.append((np.median(w[w > 0]), fo, fp))
        out["band"].append(band)
    out["use"] = use
    return out


def norm(f):
    v = f.get("sums_norm", 1.0)
    return v if np.isfinite(v) else 1.0


def both_norms(a, b):
    return all("sums_norm" in f and np.isfinite(f["sums_norm"]) for f in (a, b))


def shapes(mom, cov, reg):
    """(g, gvar, T, Terr2, bad) of weighted average sums"""
    m = np.nan_to_num(mom)
    C = cov.copy()
    if reg > 0:
        treg = 2*(reg/2.3548200450309493)**2
        A = np.eye(6)
        A[4, 5] = treg
        m, C = A @ m, A @ C @ A.T
    bad = not (mom[5] > 0 and mom[4] > 0 and m[4] > 0 and np.all(np.diag(cov) > 0))
    if bad:
        return None
    g = m[2:4]/m[4]
    gv = [ratio_err2(m[k], m[4], C[k, k], C[4, 4], C[k, 4]) for k in (2, 3)]
    T = mom[4]/mom[5]
    te = ratio_err2(mom[4], mom[5], cov[4, 4], cov[5, 5], cov[4, 5])
    return g, np.array(gv), T, te


def near(a, b, rtol=1e-7, atol=1e-10):
    return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def check(c, ctx):
    mbl, table = build(c)
    nband, nobj = c["nband"], len(mbl)
    before = [[snapshot(ol[0]) if len(ol) else None for ol in mb] for mb in mbl]
    fitter = (FakePre if c["prepsf"] else FakePost)(c["kind"], table)
    kw = dict(fitter=fitter, bmask_flags=c["flagmask"], fwhm_reg=c["reg"],
              symmetrize=c["symmetrize"])
    if c["shear_bands"] is not None:
        kw["shear_bands"] = list(c["shear_bands"])
    with np.errstate(all="ignore"):
        res = fit_mbobs_list_wavg(mbobs_list=mbl, **kw)
        rows = []
        calls = fitter.calls
        for mb in mbl:
            rows.append(fit_mbobs_wavg(mbobs=mb, **kw))
    for bs, mb in zip(before, mbl):
        for s, ol in zip(bs, mb):
            require(s is None or same_snap(s, snapshot(ol[0])), "inputs modified")
    if nobj == 0:
        require(res is None, "no objects must give None")
        return
    require(res is not None and res.shape == (nobj,), "%d objects, %s rows", nobj,
            None if res is None else res.shape)
    k = c["kind"] + "_"
    sb = list(range(nband)) if c["shear_bands"] is None else c["shear_bands"]
    seen = {}
    for key, w, im, kws in calls:
        seen.setdefault(key, []).append((w, im, kws))
    for i in range(nobj):
        r = res[i]
        for n in res.dtype.names:
            require(np.array_equal(r[n], rows[i][n][0], equal_nan=True)
                    if res.dtype[n].base.kind == "f" else
                    np.all(r[n] == rows[i][n][0]),
                    "row %d differs from fitting object %d alone (%s)", i, i, n)
        require(str(r["shear_bands"]) == "".join(str(b) for b in sorted(sb)),
                "shear_bands column is %r", str(r["shear_bands"]))
        e = model(c, c["objs"][i], before[i], table, i, sb)
        # what was fit
        for b, w in e["fits"]:
            sw = seen.get("o%d.%d" % (i, b))
            require(sw is not None, "band %d was not fit", b)
            require(np.array_equal(sw[0][0], w),
                    "weights given to the fit of band %d are not the %s ones", b,
                    "symmetrized" if c["symmetrize"] else "original")
            require(np.array_equal(sw[0][1], before[i][b]["image"]), "image changed")
            sp = seen.get("p%d.%d" % (i, b))
            require(sp is not None, "PSF of band %d was not fit", b)
            require(bool(sp[0][2].get("no_psf", False)) == c["prepsf"],
                    "PSF fit must not deconvolve itself" if c["prepsf"]
                    else "unexpected no_psf")
        # band fluxes
        bits_all = 0
        bf = np.atleast_1d(r[k + "band_flux"])
        be = np.atleast_1d(r[k + "band_flux_err"])
        bff = np.atleast_1d(r[k + "band_flux_flags"])
        require(bf.shape == (nband,), "one flux per band")
        for b, eb in enumerate(e["band"]):
            require(near(bf[b], eb["flux"]) and near(be[b], eb["err"]),
                    "flux of band %d: %r +- %r, expected %r +- %r",
                    b, bf[b], be[b], eb["flux"], eb["err"])
            want = eb["bits"] | eb["other"]
            require(bff[b] & want == want and (want != 0) == (bff[b] != 0),
                    "flux flags of band %d: %d, expected %d", b, bff[b], want)
            bits_all |= bff[b]
        of, pflg, allf = r[k + "obj_flags"], r[k + "psf_flags"], r[k + "flags"]
        require(allf == (of | bits_all), "flags %d are not obj %d | bands %d",
                allf, of, bits_all)
        if e["bits"]:
            ctx.nontrivial()
            ctx.note("bad shear band")
            for n, v in (("obj", of), ("psf", pflg)):
                require(v & e["bits"] == e["bits"], "%s flags %d miss %d", n, v,
                        e["bits"])
        if pflg:
            require(of & pf.PSF_FAILURE, "PSF failed (%d), object flags %d", pflg, of)
            require(not np.isfinite(r[k + "T_ratio"]), "T_ratio without a PSF")
        if e["psf_bits"]:
            require(pflg & e["psf_bits"], "PSF without moments is not flagged")
        if e["bits"] or (e["psf_bits"] and len(e["use"]) < len(sb)):
            for n in ("g", "g_cov", "T", "T_err", "s2n") if e["bits"] else ():
                require(np.all(np.isnan(r[k + n])), "%s of a failed object", n)
            if e["bits"]:
                require(np.all(np.isnan(r[k + "psf_g"])), "psf_g of a failed object")
            continue
        use = e["use"]
        if len(use) > 1:
            ctx.nontrivial()
        w = np.array([u[0] for u in use])
        W = w.sum()
        mom = sum(wi/norm(fo)*fo["sums"][:6] for wi, fo, fp in use)/W
        cov = sum((wi/norm(fo))**2*fo["sums_cov"][:6, :6] for wi, fo, fp in use)/W**2
        flux = sum(wi*fo["sums"][5] for wi, fo, fp in use)/W
        fvar = sum(wi**2*fo["sums_cov"][5, 5] for wi, fo, fp in use)/W**2
        sh = shapes(mom, cov, c["reg"])
        tie = abs(mom[4]) < 1e-9*np.nanmax(np.abs(mom)) or abs(flux) < 1e-9
        # PSF: band moments scaled to the object's flux in that band
        psf_ok = all(fp["sums"][5] != 0 for _, _, fp in use)
        if psf_ok:
            pm, pc, pflux, pfv = 0, 0, 0, 0
            for wi, fo, fp in use:
                rat = fo["sums"][5]/fp["sums"][5]
                if both_norms(fo, fp):
                    rat = rat*norm(fp)/norm(fo)
                f = wi*rat/norm(fp)
                pm = pm + f*fp["sums"][:6]
                pc = pc + f**2*fp["sums_cov"][:6, :6]
                pflux = pflux + wi*fp["sums"][5]
                pfv = pfv + wi**2*fp["sums_cov"][5, 5]
            ps = shapes(pm/W, pc/W**2, 0)
            pbad = ps is None or not pflux > 0 or not pfv > 0
            if not pbad and abs(pm[4]) > 1e-9*np.nanmax(np.abs(pm)) \
                    and np.all(ps[1] > 1e-12):
                ctx.note("psf measured")
                require(pflg == 0, "PSF flags %d for good PSF fits", pflg)
                require(near(r[k + "psf_g"], ps[0], 1e-6),
                        "psf_g %s, expected %s", r[k + "psf_g"], ps[0])
                require(near(r[k + "psf_T"], ps[2], 1e-6),
                        "psf_T %r, expected %r", r[k + "psf_T"], ps[2])
            elif pbad:
                ctx.nontrivial()
                require(pflg != 0, "unusable PSF moments are not flagged")
        else:
            ctx.nontrivial()
            require(pflg & pf.ZERO_WEIGHTS, "PSF without flux: flags %d", pflg)
        if tie:
            continue
        bad = sh is None or not flux > 0 or not fvar > 0
        if bad:
            ctx.nontrivial()
            ctx.note("bad moments")
            require(of != 0, "unusable moments are not flagged")
            if sh is None and c["reg"] == 0:
                require(np.all(np.isnan(r[k + "g"])), "shape from unusable moments")
        elif np.all(sh[1] > 1e-12):
            ctx.note("measured", "reg" if c["reg"] else "noreg")
            require(of & ~pf.PSF_FAILURE == 0, "object flags %d for good fits", of)
            require((of == 0) == (pflg == 0), "obj flags %d, psf flags %d", of, pflg)
            g, gv, T, te = sh
            require(near(r[k + "g"], g, 1e-6), "g %s, expected %s", r[k + "g"], g)
            require(near(np.diag(r[k + "g_cov"]), gv, 1e-5),
                    "g_cov %s, expected %s", np.diag(r[k + "g_cov"]), gv)
            require(near(r[k + "T"], T, 1e-6), "T %r, expected %r", r[k + "T"], T)
            require(r[k + "T_flags"] == 0, "T_flags %d", r[k + "T_flags"])
            require(near(r[k + "T_err"], np.sqrt(te), 1e-5), "T_err %r, expected %r",
                    r[k + "T_err"], np.sqrt(te))
            s2n = flux/np.sqrt(fvar)
            require(near(r[k + "s2n"], s2n, 1e-6), "s2n %r, expected %r",
                    r[k + "s2n"], s2n)
            if pflg == 0:
                require(near(r[k + "T_ratio"], r[k + "T"]/r[k + "psf_T"], 1e-6),
                        "T_ratio %r", r[k + "T_ratio"])


SUBS = [Sub("wavg", cases(), check, 6000, 200000)]
