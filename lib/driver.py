"""a generated world for the Metadetect driver, with faked metacal and detection

The two expensive dependencies (ngmix.metacal and sxdes) are replaced through
the HOOKs of the stand-ins: "metacal" scales the images by a type-dependent
factor, "detection" returns the generated catalogue of the (type, detection
bands) pair whose weighted-mean image it is given.
"""
import copy

import numpy as np
import ngmix
import ngmix.metacal
import ngmix.metacal.metacal as mcal_mod
import sxdes
from hypothesis import strategies as st
from ngmix.gexceptions import BootPSFFailure

from lib.gen import fl, rare, seeds
from lib.harness import Violation
from lib.obs import gauss_image, jac_st, make_jac

TYPES = ["noshear", "1p", "1m", "2p", "2m"]
ALL_TYPES = TYPES + ["1p_psf", "1m_psf", "2p_psf", "2m_psf"]
CAT_DT = [
    ("number", "i4"), ("x", "f8"), ("y", "f8"), ("xmin", "i8"), ("xmax", "i8"),
    ("ymin", "i8"), ("ymax", "i8"), ("a", "f8"), ("b", "f8"), ("theta", "f8"),
    ("flux", "f8"), ("iso_radius", "f4"), ("flux_radius", "f4"),
    ("isoarea_image", "f4"), ("flux_auto", "f4"), ("kron_radius", "f4"),
]
BITS = [1, 2, 4, 2**9, 2**20, 2**29]
POS_BITS = BITS


def subset(nband):
    return st.permutations(range(nband)).flatmap(
        lambda p: st.integers(1, nband).map(lambda k: list(p[:k])))


@st.composite
def fitter_st(draw, joint=True):
    models = ["wmom", "wmom", "pgauss", "ksigma"] + (["am"] if joint else [])
    m = draw(st.sampled_from(models))
    d = {"model": m}
    if m != "am":
        d["weight"] = {"fwhm": draw(st.sampled_from([1.2, 1.5, 2.0]))}
        if draw(st.integers(0, 2)) == 0:
            d["weight"]["fwhm_reg"] = draw(st.sampled_from([0.8, 1.25]))
        if m != "wmom" and draw(st.integers(0, 2)) == 0:
            d["weight"]["fwhm_smooth"] = 0.9
    if draw(st.booleans()):
        d["symmetrize"] = draw(st.booleans())
    return d


def fitter_kind(d):
    k = d["model"]
    if "fwhm_reg" in d.get("weight", {}):
        k += "_reg%0.2f" % d["weight"]["fwhm_reg"]
    return k


@st.composite
def world_st(draw, joint=True, color=False, faults=True):
    nband = draw(rare(st.integers(2 if color else 1, 4), st.integers(5, 6)))
    num = draw(rare(st.just(st.integers(28, 44)), st.just(st.integers(16, 96)), 16))
    ny, nx = draw(num), draw(num)
    fitters, kinds = [], set()
    for _ in range(draw(st.integers(1, 3))):
        f = draw(fitter_st(joint=joint and not (color and not fitters)))
        if fitter_kind(f) not in kinds:
            kinds.add(fitter_kind(f))
            fitters.append(f)
    ncomb = draw(rare(st.sampled_from([0, 1, 1, 2, 3]), st.integers(3, 6), 16))
    shear = None if ncomb == 0 else [draw(subset(nband)) for _ in range(ncomb)]
    det = draw(st.sampled_from(["none", "shear_bands", "list"]))
    nc = max(ncomb, 1)
    det = {"none": None, "shear_bands": "shear_bands"}.get(
        det, [draw(subset(nband)) for _ in range(nc)])
    types = draw(st.sampled_from(
        [None, TYPES, ["noshear"], ["noshear", "1p", "1m"], ["2m", "noshear", "1p"],
         TYPES + ["1p_psf"]]))
    mcal = {"psf": draw(st.sampled_from(["gauss", "fitgauss"]))}
    if types is not None:
        mcal["types"] = types
    if draw(st.booleans()):
        mcal["step"] = draw(st.sampled_from([0.01, 0.02, 0.05]))
    if draw(st.booleans()):
        mcal["use_noise_image"] = True
    conf = {"metacal": mcal,
            "meds": {"min_box_size": 24,
                     "max_box_size": draw(st.sampled_from([24, 32, 32])),
                     "box_type": "iso_radius", "rad_min": 4, "rad_fac": 2,
                     "box_padding": 2}}
    if draw(st.booleans()):
        conf["meds"]["weight_type"] = "weight"
    if len(fitters) == 1 and draw(st.booleans()):
        conf.update(copy.deepcopy(fitters[0]))
        if conf["model"] == "wmom" and draw(st.booleans()):
            del conf["model"]           # the default model
    else:
        conf["fitters"] = fitters
    for k, vals in (("mask_region", [0, 1, 2, 5]), ("ormask_region", [0, 1, 3, 6]),
                    ("mfrac_fwhm", [1.0, 2.2]), ("bmask_flags", [0, 2, 2**29]),
                    ("nodet_flags", [0, 1, 4 | 2**9])):
        if draw(st.booleans()):
            conf[k] = draw(st.sampled_from(vals))
    if draw(st.booleans()):
        conf["sx"] = {"detect_thresh": 0.8, "minarea": 4, "filter_kernel": [[0.0, 0.2, 0.0], [0.2, 0.2, 0.2], [0.0, 0.2, 0.0]]}
    base = [[draw(fl(0, nx-1)), draw(fl(0, ny-1))] for _ in range(draw(rare(st.just(4), st.integers(4, 15))))]
    most = len(base)
    fault = draw(st.sampled_from([None]*8 + [
        "zero_band", "masked_band", "metacal", "badpsf"])) if faults else None
    if fault == "masked_band" and draw(st.integers(0, 7)):
        conf["nodet_flags"] = draw(st.sampled_from([1, 4 | 2**9, 2**30, 1 | 2 | 4]))
    return {
        "nband": nband, "ny": ny, "nx": nx, "seed": draw(seeds), "conf": conf,
        "fitters": fitters, "shear": shear, "det": det, "base": base,
        # objects found, per (type, det comb): a number 0..4
        "nobj": [draw(st.integers(0, most)) for _ in range(9)] if draw(st.integers(0, 3))
        else [0]*9 if draw(st.booleans()) else [0, 2, 1, 0, 2, 1, 0, 3, 1],
        "jac": dict(draw(jac_st(0.1)), scale=draw(fl(0.2, 0.35))),
        "mfrac": draw(st.sampled_from(["none", "zero", "some", "some", "some",
                                       "mixed", "full" if faults else "some"])),
        "bmask_density": draw(st.sampled_from([0.0, 0.01, 0.1])),
        "psfT": [draw(fl(0.3, 0.6)) for _ in range(nband)],
        "psfg": [[draw(fl(-0.08, 0.08)), draw(fl(-0.08, 0.08))] for _ in range(nband)],
        "lev": [draw(rare(fl(0, 2), fl(-2, 6), 30)) for _ in range(nband)],
        "const_wt": draw(st.booleans()),
        "flux": [draw(fl(50, 500)) for _ in range(nband)],
        "fault": fault,
        "fault_band": draw(st.integers(0, nband-1)),
    }


def factor(t):
    return 1 + 0.03*ALL_TYPES.index(t)


def build_mbobs(w, salt=0, gain=1.0, dT=0.0):
    r = np.random.RandomState((w["seed"] + 131*salt) % 2**32)
    shape = (w["ny"], w["nx"])
    jac = make_jac(w["jac"], shape)
    pj = jac.copy()
    pj.set_cen(row=13, col=13)
    mb = ngmix.MultiBandObsList()
    nodet = w["conf"].get("nodet_flags", 0)
    for b in range(w["nband"]):
        hit = w["fault_band"] == b
        lev = 10.0**w["lev"][b]
        wt = np.full(shape, lev)
        if not w["const_wt"]:
            wt = wt*r.uniform(0.5, 2, size=shape)
            wt[r.uniform(size=shape) < 0.02] = 0
        im = r.normal(size=shape)/np.sqrt(lev)
        for x, y in w["base"]:
            im = im + gauss_image(shape, y, x, jac, w["psfT"][b] + 0.5, 0.05, -0.02,
                                  gain*w["flux"][b]*r.uniform(0.4, 2.5))
        bm, om = np.zeros(shape, dtype="i4"), np.zeros(shape, dtype="i4")
        for bit in POS_BITS:
            bm[r.uniform(size=shape) < w["bmask_density"]] |= bit
            om[r.uniform(size=shape) < w["bmask_density"]] |= bit
        # the stamp-rejecting bit must be rare, or nothing is measured
        bm &= ~2**29
        bm[r.uniform(size=shape) < 0.002] |= 2**29
        if w["fault"] == "zero_band" and hit:
            wt[:] = 0
        if w["fault"] == "masked_band" and hit:
            # every pixel has one of the bits, or one bit is everywhere
            bits = [1 << k for k in range(31) if nodet >> k & 1]
            if bits and w["seed"] % 2:
                bm &= ~nodet
                bm |= np.array(bits, dtype="i4")[r.randint(len(bits), size=shape)]
            elif bits:
                bm |= bits[0]
        kw = {}
        if w["mfrac"] == "zero":
            kw["mfrac"] = np.zeros(shape)
        elif w["mfrac"] == "full":
            kw["mfrac"] = np.ones(shape)
        elif w["mfrac"] == "some" or (w["mfrac"] == "mixed" and b % 2 == 0):
            kw["mfrac"] = r.uniform(size=shape)*(r.uniform(size=shape) < 0.5)
        pim = gauss_image((27, 27), 13, 13, pj, w["psfT"][b] + dT,
                          w["psfg"][b][0], w["psfg"][b][1], 1.0)
        if w["fault"] == "badpsf" and hit:
            pim = -pim
        psf = ngmix.Observation(pim, weight=np.full(pim.shape, 1e8), jacobian=pj)
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation(
            im, weight=wt, bmask=bm, ormask=om, psf=psf, jacobian=jac,
            noise=r.normal(size=shape)/np.sqrt(lev),
            ignore_zero_weight=bool(np.any(wt > 0)), **kw))
        mb.append(ol)
    return mb


def fake_mcal(mbobs, types):
    out = {}
    for t in types:
        new = mbobs.copy()
        for b, ol in enumerate(new):
            with ol[0].writeable():
                ol[0].image[:, :] *= factor(t)*(1 + 0.01*b*ALL_TYPES.index(t))
        out[t] = new
    return out


def det_image(mbobs, bands):
    ws = [np.median(mbobs[b][0].weight[mbobs[b][0].weight > 0]) for b in bands]
    return sum(x*mbobs[b][0].image for x, b in zip(ws, bands))/sum(ws)


def catalog(w, t, combo):
    """the catalogue "found" for a metacal type with the i-th detection bands"""
    n = w["nobj"][ALL_TYPES.index(t)]
    r = np.random.RandomState((w["seed"] + 31*ALL_TYPES.index(t)
                               + 977*sum(2**b for b in combo)) % 2**32)
    cat = np.zeros(n, dtype=CAT_DT)
    for i in range(n):
        x, y = w["base"][i]
        cat["x"][i] = np.clip(x + r.uniform(-0.5, 0.5), 0, w["nx"]-1)
        cat["y"][i] = np.clip(y + r.uniform(-0.5, 0.5), 0, w["ny"]-1)
        cat["number"][i] = i + 1
    for k in ("a", "b", "iso_radius", "flux_radius", "kron_radius"):
        cat[k] = 2.0
    # stamps of 24 or 32 pixels
    cat["iso_radius"] = r.choice([2.0, 7.0], size=n)
    return cat


def boxes(w, cat):
    """stamp sizes of its objects"""
    return np.minimum(np.where(cat["iso_radius"] > 4, 32, 24),
                      w["conf"]["meds"]["max_box_size"])


class World:
    """runs do_metadetect with the faked dependencies and records their use"""

    def __init__(self, w, mbobs, others=()):
        self.w = w
        self.nband = len(mbobs)
        self.types = list(w["conf"]["metacal"].get("types", TYPES))
        self.shear = w["shear"] or [list(range(self.nband))]
        d = w["det"]
        if d is None:
            d = [list(range(self.nband))]*len(self.shear)
        elif d == "shear_bands":
            d = self.shear
        self.det = d
        self.pool = [mbobs] + list(others)
        self.mcal_calls, self.det_calls = [], []
        self.mcal = {}
        self.rng = None

    def fake(self, i):
        if i not in self.mcal:
            self.mcal[i] = fake_mcal(self.pool[i], self.types)
        return self.mcal[i]

    def mcal_hook(self, obs, **kw):
        idx = [i for i, m in enumerate(self.pool) if m is obs]
        if not idx:
            # a copy is fine as long as it holds the same pixels
            idx = [i for i, m in enumerate(self.pool) if len(m) == len(obs) and all(
                np.array_equal(a[0].image, b[0].image) for a, b in zip(m, obs))]
        if not idx:
            raise Violation("metacal ran on something else than the input images")
        self.mcal_calls.append((idx[0], kw))
        if self.w["fault"] == "metacal":
            raise BootPSFFailure("no psf")
        bad = self.w.get("bad_color")
        if bad is not None and idx[0] == bad:
            raise BootPSFFailure("no psf")
        if list(kw["types"]) != self.types:
            raise Violation("metacal types %s, expected %s" % (kw["types"], self.types))
        full = fake_mcal(obs, self.types)
        return full

    def det_hook(self, image, **kw):
        m = self.fake(0)
        found = []
        for t in self.types:
            for c in range(len(self.det)):
                im = det_image(m[t], self.det[c])
                if np.allclose(image, im, rtol=1e-9, atol=1e-9*np.abs(im).max()):
                    found.append((t, c))
        if not found:
            raise Violation("detection ran on an image that is not the weighted mean "
                            "of the requested detection bands of any type")
        t, c = found[0]
        self.det_calls.append((t, c, kw))
        return catalog(self.w, t, self.det[c]), np.zeros(image.shape, dtype="i4")

    def run(self, func):
        mcal_mod.HOOK, sxdes.HOOK = self.mcal_hook, self.det_hook
        try:
            with np.errstate(all="ignore"):
                return func()
        finally:
            mcal_mod.HOOK = sxdes.HOOK = None


def cat_order(w, t, combo):
    return catalog(w, t, combo)


def make_fitter(f):
    wt = f.get("weight", {})
    kw = {"fwhm_smooth": wt["fwhm_smooth"]} if "fwhm_smooth" in wt else {}
    if f["model"] == "wmom":
        r = ngmix.gaussmom.GaussMom(fwhm=wt["fwhm"])
    elif f["model"] == "pgauss":
        r = ngmix.prepsfmom.PGaussMom(fwhm=wt["fwhm"], **kw)
    else:
        r = ngmix.prepsfmom.KSigmaMom(fwhm=wt["fwhm"], **kw)
    r.kind = fitter_kind(f)
    return r
