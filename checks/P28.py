"""P28: whole runs of metadetection on LSST exposures"""
import copy

import numpy as np
import ngmix
from hypothesis import strategies as st

from lib import lsstrun as R
from lib.gen import fl
from lib.harness import Sub, require
from metadetect.lsst.metadetect import run_metadetect

PROPERTY = "P28"
RULE = (
    "1-3 bands of 72-88 pixels a side, any origin, orientation, parity and noise levels, "
    "with 0-3 Gaussian galaxies of S/N 300-1500 and noise images; any subset of shear "
    "types, shear bands, deblender, threshold, stamp size, target PSF, OR masks and masked "
    "fractions given or not, sky added and subtracted; broken configurations and failing "
    "PSF fits; non-trivial: two types and a source; distinct by full case"
)


@st.composite
def cases(draw):
    c = draw(R.scenes())
    c["types"] = draw(st.one_of(st.none(), st.permutations(sorted(R.SHEAR)).map(
        lambda x: list(x[:2])), st.just(["noshear", "1p", "1m", "2p", "2m"])))
    c["reconv"] = draw(st.sampled_from([None, "fitgauss", "gauss"]))
    c["stats"] = draw(st.booleans())
    c["level"] = [draw(fl(-3, 3)) for _ in c["world"]["bands"]]
    c["fault"] = draw(st.sampled_from([None]*5 + ["psf", "psf"]))
    return c


def make_config(c, sc):
    config = sc.config
    if c["types"] is not None or c["reconv"] is not None:
        m = config["metacal"] = {}
        if c["types"] is not None:
            m["types"] = list(c["types"])
        if c["reconv"] is not None:
            m["reconv_type"] = c["reconv"]
    return config


class Fault:
    """the first PSF fit fails"""
    def __init__(self, on):
        self.on, self.hit = on, 0

    def __enter__(self):
        self.old = old = ngmix.runners.PSFRunner.go

        def go(me, obs, *a, **k):
            if self.on and not self.hit:
                self.hit = 1
                return {"flags": 1}
            return old(me, obs, *a, **k)
        ngmix.runners.PSFRunner.go = go
        return self

    def __exit__(self, *a):
        ngmix.runners.PSFRunner.go = self.old


def run(c, sc, salt=0, fault=None):
    kw = {}
    if sc.mfmb is not None:
        kw["mfrac_mbexp"] = sc.mfmb
    if sc.ormasks is not None:
        kw["ormasks"] = sc.ormasks
    if c["stats"]:
        kw["get_psf_stats"] = True
    np.random.seed((c["seed"] + salt) % 2**32)
    with Fault(fault) as f:
        out = run_metadetect(mbexp=sc.mb, noise_mbexp=sc.nmb, config=sc.config,
                             rng=np.random.RandomState(c["seed"] % 1000 + 1), **kw)
    return out, f.hit


def check(c, ctx):
    sc = R.Scene(c)
    g = sc.g
    make_config(c, sc)
    sky = c["sky"] == "yes"
    if sky:
        for e, a, lev in zip(sc.mb.singles, c["level"], sc.w["lev"]):
            e.image.array[:, :] += a*np.sqrt(lev)
    before = sc.snap()
    with R.Deblenders() as deb:
        out, hit = run(c, sc, fault=c["fault"] == "psf")
    deb.check(c["deblender"], len(c["src"]), c["thresh"])
    failed = hit > 0
    require(sc.unchanged(before, sc.snap(), sky), "the caller's data were modified")
    types = c["types"] if c["types"] is not None else ["noshear", "1p", "1m"]
    keys = list(types) + (["psf_stats"] if c["stats"] else [])
    require(sorted(out) == sorted(keys), "keys %s, expected %s", list(out), keys)
    ctx.note("%d bands" % sc.nb, c["deblender"], "sky" if sky else "no sky",
             "psf fault" if failed else "no fault")
    rows = {}
    for t in types:
        tab = out[t]
        if tab is None:
            require(not c["src"], "%s: no rows, but there are sources", t)
            continue
        require(isinstance(tab, np.ndarray) and tab.size > 0, "%s: not a table", t)
        found = sc.check_rows(tab, t, t, failed)
        near = [min([np.hypot(*(sc.position(s, t) - (r["col"] - g["x0"],
                                                     r["row"] - g["y0"])))
                     for s in c["src"]] + [np.inf]) for r in tab]
        require(max(near) < 14, "%s: a detection %.1f pixels off of any source, threshold "
                "%s", t, max(near), c["thresh"] or 5.0) if (c["thresh"] or 5) > 9 else 0
        for i, s in enumerate(c["src"]):
            if len(found[i]) > 1:
                continue
            row = found[i][0]
            rows[t, i] = row
            what = "%s, source %d" % (t, i)
            require(row["stamp_flags"] == 0, "%s: stamp flags %s", what,
                    row["stamp_flags"])
            require(row["gauss_flags"] == 0 and row["pgauss_flags"] == 0, "%s: flags gauss "
                    "%s, pgauss %s", what, row["gauss_flags"], row["pgauss_flags"])
            g1, g2, T = sc.shape(s, t)
            # the noise is that of image and noise image
            sn = np.sqrt(sum(s["sn"][b]**2 for b in sc.shear)/2)
            tol = 0.01 + 25/sn
            ok = abs(row["gauss_g"][0] - g1) < tol and abs(row["gauss_g"][1] - g2) < tol
            require(ok, "%s: shape %s, expected %s", what, row["gauss_g"], (g1, g2))
            require(abs(row["gauss_T"]/T - 1) < 4*tol, "%s: size %s, expected %s", what,
                    row["gauss_T"], T)
            require(np.all(np.abs(row["gauss_psf_g"]) < 5e-3), "%s: the PSF is not round",
                    what)
            big = [np.linalg.eigvalsh(C).max()*2 for C in sc.psfcov]
            require(0.98*min(big) < row["gauss_psf_T"] < 2*max(big), "%s: size of the PSF "
                    "%s, the originals have %s", what, row["gauss_psf_T"], big)
            if not failed and c["reconv"] != "gauss":
                # the round Gaussian for the fitted size and ellipticity of each band
                want = sum(np.linalg.eigvalsh(sc.psfcov[b]).max()*np.sqrt(
                    np.trace(sc.psfcov[b])/2/np.linalg.eigvalsh(sc.psfcov[b]).max())
                    / sc.w["lev"][b] for b in sc.shear)
                want *= 2*1.02**2/sum(1/sc.w["lev"][b] for b in sc.shear)
                require(abs(row["gauss_psf_T"]/want - 1) < 0.02, "%s: size of the PSF %s, "
                        "that of the configured target is %s", what, row["gauss_psf_T"],
                        want)
    # response of the shapes to shear
    for i, s in enumerate(c["src"]):
        for k, (p, m) in enumerate((("1p", "1m"), ("2p", "2m"))):
            if (p, i) in rows and (m, i) in rows:
                a, b = rows[p, i], rows[m, i]
                if a["gauss_flags"] or b["gauss_flags"]:
                    continue
                sn = np.sqrt(sum(s["sn"][b]**2 for b in sc.shear)/2)
                resp = (a["gauss_g"][k] - b["gauss_g"][k])/0.02
                want = (sc.shape(s, p)[k] - sc.shape(s, m)[k])/0.02
                require(abs(resp - want) < 0.4 + 180/sn, "source %d: response to %s/%s is "
                        "%s, expected %s", i, p, m, resp, want)
                ctx.note("response")
    if c["stats"]:
        ps = out["psf_stats"]
        if failed:
            require(ps["flags"] != 0, "psf_stats of a failed fit have no flag")
        else:
            g1, g2, T = sc.psf_mean()
            require(ps["flags"] == 0 and abs(ps["g1"] - g1) < 1e-3
                    and abs(ps["g2"] - g2) < 1e-3 and abs(ps["T"]/T - 1) < 2e-3
                    and ps["navg"] == len(sc.shear), "psf_stats %s, expected %s", ps,
                    (g1, g2, T))
            pb = ps["perband"]
            require(len(pb) == sc.nb, "psf_stats of %d bands", len(pb))
            for b in range(sc.nb):
                C = sc.psfcov[b]
                t = np.trace(C)
                require(abs(pb["T"][b]/t - 1) < 2e-3
                        and abs(pb["e1"][b] - (C[0, 0] - C[1, 1])/t) < 1e-3
                        and abs(pb["e2"][b] - 2*C[0, 1]/t) < 1e-3,
                        "psf_stats of band %d", b)
                require(abs(pb["wgt"][b]*sc.w["lev"][b] - 1) < 1e-4
                        and pb["is_shear_band"][b] == (b in sc.shear),
                        "psf_stats: weight or shear band of band %d", b)
    if len(types) > 1 and c["src"]:
        ctx.nontrivial()


def same_tables(a, b):
    if a is None or b is None:
        return a is b
    return a.dtype == b.dtype and a.size == b.size and all(
        np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind == "f")
        for n in a.dtype.names)


def check_again(c, ctx):
    """the same run again is the same; so is one without what makes no difference"""
    c = dict(c, sky="no", fault=None, src=c["src"][:1])
    a = R.Scene(c)
    b = R.Scene(dict(c, mfrac=None if c["mfrac"] == "zero" else c["mfrac"]))
    conf = make_config(c, a)
    make_config(c, b)
    b.config = copy.deepcopy(conf)
    # defaults by name
    if "shear_bands" not in conf:
        b.config["shear_bands"] = list(b.mb.bands)
    if "detect" not in conf:
        b.config["detect"] = {"thresh": 5.0}
    b.config.setdefault("metacal", {}).setdefault("types", ["noshear", "1p", "1m"])
    b.config["metacal"].setdefault("reconv_type", "fitgauss")
    b.config["subtract_sky"] = False
    if b.ormasks is None:
        b.ormasks = [np.zeros_like(b.om) for _ in range(b.nb)]
    x = run(c, a)[0]
    y = run(c, b, salt=77)[0]
    for t in x:
        if t == "psf_stats":
            require(all(np.array_equal(x[t][k], y[t][k]) for k in x[t]), "psf_stats differ")
        else:
            require(same_tables(x[t], y[t]), "%s: another run with the same seed and "
                    "equivalent settings differs", t)
    if c["src"]:
        ctx.nontrivial()


bad = st.fixed_dictionaries({"scene": R.scenes(2, 74), "what": st.sampled_from(
    ["key", "nested", "type", "value", "band", "deblender", "reconv", "dead"])})


def check_bad(c, ctx):
    s = dict(c["scene"], sky="no", src=[], types=None, reconv=None, stats=False)
    sc = R.Scene(s)
    what = c["what"]
    conf = sc.config
    if what == "key":
        conf["stampsize"] = 20
    elif what == "nested":
        conf.setdefault("detect", {})["threshhold"] = 4.0
    elif what == "type":
        conf["metacal"] = {"types": ["noshear", "3p"]}
    elif what == "value":
        conf["stamp_size"] = "big"
    elif what == "band":
        conf["shear_bands"] = [b for b in "ugrizy" if b not in sc.mb.bands][:1]
    elif what == "deblender":
        conf["deblender"] = "none"
    elif what == "reconv":
        conf["metacal"] = {"reconv_type": "psf"}
    else:
        list(sc.mb.singles)[-1].variance.array[:, :] = np.inf
    before = sc.snap()
    ctx.nontrivial()
    try:
        out, _ = run(s, sc)
    except (ValueError, AttributeError, RuntimeError, KeyError, TypeError):
        require(sc.unchanged(before, sc.snap()), "a refused run modified the data")
        return
    require(False, "%s: not refused; returned %s", what, sorted(out))


SUBS = [Sub("run", cases(), check, 800, 8000),
        Sub("again", cases(), check_again, 60, 1000),
        Sub("refused", bad, check_bad, 120, 2000)]
