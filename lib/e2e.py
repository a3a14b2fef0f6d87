"""scenes of isolated Gaussian galaxies for end-to-end runs of do_metadetect

Nothing is faked here: the galaxies are detected with sep and metacal is the
galsim based stand-in for ngmix.metacal.
"""
import copy

import numpy as np
import ngmix
from hypothesis import strategies as st

from lib.gen import fl, seeds

KERNEL = [[float("%.6f" % np.exp(-(x*x + y*y)/(2*1.27**2))) for x in range(-3, 4)]
          for y in range(-3, 4)]
CONFIG = {
    "metacal": {"psf": "gauss", "types": ["noshear", "1p", "1m", "2p", "2m"]},
    "sx": {"detect_thresh": 3.0, "deblend_cont": 0.01, "minarea": 4,
           "filter_type": "conv", "filter_kernel": KERNEL},
    "meds": {"min_box_size": 32, "max_box_size": 48, "box_type": "iso_radius",
             "rad_min": 4, "rad_fac": 2, "box_padding": 2},
    "bmask_flags": 0,
}
SIDE = 42


@st.composite
def fitter_st(draw, joint=True):
    m = draw(st.sampled_from(["wmom", "wmom", "pgauss", "ksigma"]
                             + (["am", "gauss"] if joint else [])))
    d = {"model": m}
    if m in ("wmom", "pgauss", "ksigma"):
        d["weight"] = {"fwhm": draw(st.sampled_from([1.2, 1.5, 2.0]))}
        if m == "wmom":
            d["weight"]["fwhm"] = 1.2
        if draw(st.integers(0, 3)) == 0:
            d["weight"]["fwhm_reg"] = 0.8
    if m == "am" and draw(st.booleans()):
        d["coadd"] = True
    if draw(st.booleans()):
        d["symmetrize"] = draw(st.booleans())
    return d


@st.composite
def scene_st(draw, nmax=3, joint=True, many=2, sn=(3000, 20000), g=0.04):
    nband = draw(st.integers(1, nmax))
    nr, nc = draw(st.sampled_from([(2, 2), (2, 2), (2, 3), (3, 2), (1, 3)]))
    fitters = draw(st.lists(fitter_st(joint), min_size=1, max_size=many,
                            unique_by=lambda f: (f["model"],
                                                 "fwhm_reg" in f.get("weight", {}))))
    return {
        "nband": nband, "grid": [nr, nc], "seed": draw(seeds),
        "pad": [draw(st.integers(0, 8)), draw(st.integers(0, 8))],
        "jit": [[draw(fl(-3, 3)), draw(fl(-3, 3))] for _ in range(nr*nc)],
        "T": [draw(fl(0.3, 0.8)) for _ in range(nr*nc)],
        "e": [0.0, 0.0], "g": [draw(fl(-g, g)), draw(fl(-g, g))],
        "jac": {"scale": draw(fl(0.22, 0.27)), "rot": draw(fl(-3.2, 3.2)),
                "flip": draw(st.booleans()), "diag": draw(st.integers(0, 2)) == 0,
                "s1": draw(fl(-0.03, 0.03)), "s2": draw(fl(-0.03, 0.03)),
                "off": [draw(fl(-30, 30)), draw(fl(-30, 30))]},
        "psfT": draw(fl(0.28, 0.4)),
        "psfg": [[draw(fl(-0.05, 0.05)), draw(fl(-0.05, 0.05))] for _ in range(nband)],
        "sn": [draw(fl(*sn)) for _ in range(nband)],
        "lev": [draw(fl(-1, 1)) for _ in range(nband)],
        "fitters": fitters,
        "step": draw(st.sampled_from([None, 0.01, 0.02])),
        "psf": draw(st.sampled_from(["gauss", "gauss", "fitgauss"])),
        "noise": draw(st.booleans()),
        "mfrac": draw(st.booleans()), "bits": draw(st.booleans()),
    }


def jac_of(c, shape):
    j = c["jac"]
    if j["diag"]:
        m = j["scale"]*np.eye(2)
    else:
        a = np.array([[1 + j["s1"], j["s2"]], [j["s2"], 1 - j["s1"]]])
        co, si = np.cos(j["rot"]), np.sin(j["rot"])
        m = j["scale"]*(np.array([[co, -si], [si, co]]) @ a)
        if j["flip"]:
            m[0] *= -1
    # rows of m: (v, u), columns: (row, col)
    return m, ngmix.Jacobian(
        row=(shape[0] - 1)/2 + j["off"][0], col=(shape[1] - 1)/2 + j["off"][1],
        dvdrow=m[0, 0], dvdcol=m[0, 1], dudrow=m[1, 0], dudcol=m[1, 1])


def cov(T, g1, g2):
    """in (v, u)"""
    e1, e2 = ngmix.shape.g1g2_to_e1e2(g1, g2)
    return T/2*np.array([[1 - e1, e2], [e2, 1 + e1]])


def shear_matrix(g1, g2):
    """acts on (v, u)"""
    return np.array([[1 - g1, g2], [g2, 1 + g1]])/np.sqrt(1 - g1**2 - g2**2)


def shape_of(c):
    nr, nc = c["grid"]
    return nr*SIDE + c["pad"][0] + 16, nc*SIDE + c["pad"][1] + 16


def positions(c):
    nr, nc = c["grid"]
    out = []
    for k in range(nr*nc):
        r, q = divmod(k, nc)
        out.append((SIDE*(r + 0.5) + c["pad"][0]/2 + 8 + c["jit"][k][0],
                    SIDE*(q + 0.5) + c["pad"][1]/2 + 8 + c["jit"][k][1]))
    return np.array(out)


def gaussian(shape, cen, m, C):
    rr, cc = np.mgrid[:shape[0], :shape[1]].astype(float)
    q = np.stack([rr - cen[0], cc - cen[1]], axis=-1) @ m.T
    return np.exp(-0.5*np.einsum("...i,ij,...j->...", q, np.linalg.inv(C), q))


def build(c, salt=0):
    r = np.random.RandomState((c["seed"] + 71*salt) % 2**32)
    shape = shape_of(c)
    m, jac = jac_of(c, shape)
    S = shear_matrix(*c["g"])
    mb = ngmix.MultiBandObsList()
    for b in range(c["nband"]):
        sig = 10.0**c["lev"][b]
        P = cov(c["psfT"], *c["psfg"][b])
        im = np.zeros(shape)
        for p, T in zip(positions(c), c["T"]):
            C = S @ cov(T, *c["e"]) @ S.T + P
            g = gaussian(shape, p, m, C)
            im += g*c["sn"][b]*sig/np.sqrt((g**2).sum())
        pdim = 35
        pim = gaussian((pdim, pdim), (17, 17), m, P)
        pj = jac.copy()
        pj.set_cen(row=17, col=17)
        pim /= pim.sum()
        psf = ngmix.Observation(
            pim + r.normal(size=pim.shape)*1e-7,
            weight=np.full(pim.shape, 1e14), jacobian=pj)
        kw = {}
        if c["mfrac"]:
            kw["mfrac"] = r.uniform(0, 0.5, size=shape)
        bm, om = np.zeros(shape, "i4"), np.zeros(shape, "i4")
        if c["bits"]:
            bm[r.uniform(size=shape) < 0.1] |= 2**(3 + b)
            om[r.uniform(size=shape) < 0.1] |= 2**(3 + b)
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation(
            im + r.normal(size=shape)*sig, weight=np.full(shape, 1/sig**2),
            noise=r.normal(size=shape)*sig, bmask=bm, ormask=om, jacobian=jac, psf=psf,
            **kw))
        mb.append(ol)
    return mb


def config(c):
    conf = copy.deepcopy(CONFIG)
    conf["fitters"] = copy.deepcopy(c["fitters"])
    conf["metacal"]["psf"] = c["psf"]
    if c["step"] is not None:
        conf["metacal"]["step"] = c["step"]
    if c["noise"]:
        conf["metacal"]["use_noise_image"] = True
    return conf


def kind(f):
    k = f["model"]
    if "fwhm_reg" in f.get("weight", {}):
        k += "_reg%0.2f" % f["weight"]["fwhm_reg"]
    return k
