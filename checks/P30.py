"""P30: whole photometry runs on LSST exposures"""
import copy

import numpy as np
from hypothesis import strategies as st

from checks.P28 import Fault, same_tables
from lib import lsstrun as R
from lib.gen import fl
from lib.harness import Sub, require
from metadetect.lsst.photometry import run_photometry

PROPERTY = "P30"
RULE = (
    "1-3 bands of 72-88 pixels a side, any origin, orientation, parity and noise levels, "
    "with 0-3 Gaussian galaxies of S/N 300-1500; shear bands, deblender, threshold, stamp "
    "size, OR masks and masked fractions given or not, sky added and subtracted; broken "
    "configurations and failing PSF fits; non-trivial: two bands and a source; distinct by "
    "full case"
)


@st.composite
def cases(draw):
    c = draw(R.scenes())
    c["level"] = [draw(fl(-3, 3)) for _ in c["world"]["bands"]]
    c["fault"] = draw(st.sampled_from([None]*5 + ["psf"]))
    c["config"] = draw(st.sampled_from([True]*5 + [False]))
    return c


def run(c, sc, salt=0, fault=None, **over):
    kw = {}
    if sc.mfmb is not None:
        kw["mfrac_mbexp"] = sc.mfmb
    if sc.ormasks is not None:
        kw["ormasks"] = sc.ormasks
    np.random.seed((c["seed"] + salt) % 2**32)
    with Fault(fault) as f:
        out = run_photometry(mbexp=sc.mb, rng=np.random.RandomState(c["seed"] % 1000 + 1),
                             config=sc.config, **kw)
    return out, f.hit


def scene(c):
    if not c["config"]:
        # every default
        c = dict(c, shear=None, sky="no", deblender="sdss", thresh=None, fwhm=None,
                 stamp=49)
    sc = R.Scene(c)
    if not c["config"]:
        sc.config = None
    return c, sc


def check(c, ctx):
    c, sc = scene(c)
    g = sc.g
    sky = c["sky"] == "yes"
    if sky:
        for e, a, lev in zip(sc.mb.singles, c["level"], sc.w["lev"]):
            e.image.array[:, :] += a*np.sqrt(lev)
    before = sc.snap()
    with R.Deblenders() as deb:
        tab, hit = run(c, sc, fault=c["fault"] == "psf")
    deb.check(c["deblender"], len(c["src"]), c["thresh"])
    failed = hit > 0
    require(sc.unchanged(before, sc.snap(), sky), "the caller's data were modified")
    ctx.note("%d bands" % sc.nb, c["deblender"], "sky" if sky else "no sky",
             "psf fault" if failed else "no fault",
             "config" if c["config"] else "no config")
    if tab is None:
        require(not c["src"], "no rows, but there are sources")
        ctx.note("nothing")
        return
    require(isinstance(tab, np.ndarray) and tab.size > 0, "not a table")
    found = sc.check_rows(tab, "noshear", "photometry", failed)
    for i, s in enumerate(c["src"]):
        if len(found[i]) > 1:
            continue
        row = found[i][0]
        what = "source %d" % i
        h = c["stamp"]//2
        x, y = sc.position(s, "noshear")
        px = int(np.floor(row["col"] - row["col_diff"] - g["x0"] + 0.5))
        py = int(np.floor(row["row"] - row["row_diff"] - g["y0"] + 0.5))
        if not (h <= px < g["nx"] - h and h <= py < g["ny"] - h):
            require(row["stamp_flags"] != 0, "%s: the stamp leaves the image", what)
            ctx.note("edge")
            continue
        require(row["stamp_flags"] == 0, "%s: stamp flags %s", what, row["stamp_flags"])
        g1, g2, T = sc.shape(s, "noshear")
        sn = np.sqrt(sum(s["sn"][b]**2 for b in sc.shear))
        tol = 0.01 + 25/sn
        alone = all(max(abs(s["x"] - o["x"]), abs(s["y"] - o["y"])) > h + 14
                    for o in c["src"] if o is not s)
        if not alone:
            continue
        require(row["gauss_flags"] == 0 and row["pgauss_flags"] == 0, "%s: flags gauss %s, "
                "pgauss %s", what, row["gauss_flags"], row["pgauss_flags"])
        ok = abs(row["gauss_g"][0] - g1) < tol and abs(row["gauss_g"][1] - g2) < tol
        require(ok, "%s: shape %s, expected %s", what, row["gauss_g"], (g1, g2))
        require(abs(row["gauss_T"]/T - 1) < 4*tol, "%s: size %s, expected %s", what,
                row["gauss_T"], T)
        T0 = [np.trace(C) for C in sc.psfcov]
        require(0.95*min(T0) < row["gauss_psf_T"] < 1.05*max(T0), "%s: the PSF has size %s, "
                "expected %s", what, row["gauss_psf_T"], T0)
        # fluxes of the bands: from the signal to noise that was put in
        if sc.nb > 1:
            fl_ = np.atleast_1d(row["pgauss_band_flux"])
            require(len(fl_) == sc.nb, "%s: %d fluxes", what, len(fl_))
            amp = []
            for b in range(sc.nb):
                C = sc.galcov(s) + sc.psfcov[b]
                # matched filter: sn*sigma/sqrt(sum im^2), flux is amplitude * area
                amp.append(s["sn"][b]*np.sqrt(sc.w["lev"][b])*np.linalg.det(C)**0.25)
            amp = np.array(amp)
            tolf = 0.05 + 40/min(s["sn"])
            require(np.all(np.abs(fl_/fl_[0]/(amp/amp[0]) - 1) < tolf), "%s: fluxes %s are "
                    "not like %s", what, fl_/fl_[0], amp/amp[0])
            ctx.nontrivial()


def check_again(c, ctx):
    c = dict(c, sky="no", src=c["src"][:1])
    c, a = scene(c)
    b = R.Scene(dict(c, mfrac=None if c["mfrac"] == "zero" else c["mfrac"]))
    conf = dict(copy.deepcopy(a.config or {}))
    for k, v in {"shear_bands": None, "stamp_size": 49, "pgauss": {"fwhm": 2.0},
                 "detect": {"thresh": 5.0}, "deblender": "sdss", "subtract_sky": False,
                 "metacal": {"reconv_type": "gauss"}}.items():
        conf.setdefault(k, v)
    b.config = conf
    if b.ormasks is None:
        b.ormasks = [np.zeros_like(b.om) for _ in range(b.nb)]
    require(same_tables(run(c, a)[0], run(c, b, salt=55)[0]), "another run with the same "
            "seed and equivalent settings differs")
    if c["src"]:
        ctx.nontrivial()


bad = st.fixed_dictionaries({"scene": R.scenes(2, 74), "what": st.sampled_from(
    ["key", "nested", "pgauss", "band", "dead"])})


def check_bad(c, ctx):
    s = dict(c["scene"], sky="no", src=[])
    sc = R.Scene(s)
    what = c["what"]
    conf = sc.config
    if what == "key":
        conf["stampsize"] = 20
    elif what == "nested":
        conf.setdefault("detect", {})["threshhold"] = 4.0
    elif what == "pgauss":
        conf["pgauss"]["FWHM"] = 4.0
    elif what == "band":
        conf["shear_bands"] = [b for b in "ugrizy" if b not in sc.mb.bands][:1]
    else:
        list(sc.mb.singles)[-1].variance.array[:, :] = np.inf
    before = sc.snap()
    ctx.nontrivial()
    try:
        out, _ = run(s, sc)
    except (ValueError, AttributeError, RuntimeError, KeyError, TypeError):
        require(sc.unchanged(before, sc.snap()), "a refused run modified the data")
        return
    require(False, "%s: not refused; returned %s", what, out)


SUBS = [Sub("run", cases(), check, 3000, 16000),
        Sub("again", cases(), check_again, 240, 2000),
        Sub("refused", bad, check_bad, 120, 2000)]
_ = fl
