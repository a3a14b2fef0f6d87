"""scenes for whole runs of the LSST code, and what is true of their rows"""
import copy

import numpy as np
import ngmix
from hypothesis import strategies as st

import lsst.afw.image as afw_image
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import require
from metadetect import procflags
from metadetect.lsst import util
from metadetect.lsst.defaults import DEFAULT_THRESH


class Deblenders:
    """which deblenders and detections run"""
    def __enter__(self):
        from lsst.meas.algorithms import SourceDetectionTask
        from lsst.meas.deblender import SourceDeblendTask
        from lsst.meas.extensions.scarlet import ScarletDeblendTask
        self.seen, self.old, self.thresh = [], [], []
        old = SourceDetectionTask.run

        def detect(me, *a, **k):
            self.thresh.append(float(me.config.thresholdValue))
            return old(me, *a, **k)
        self.old.append((SourceDetectionTask, old))
        SourceDetectionTask.run = detect
        for cls, name in ((SourceDeblendTask, "sdss"), (ScarletDeblendTask, "scarlet")):
            self.old.append((cls, cls.run))

            def run(me, *a, _name=name, _old=cls.run, **k):
                self.seen.append(_name)
                return _old(me, *a, **k)
            cls.run = run
        return self

    def __exit__(self, *a):
        for cls, run in self.old:
            cls.run = run

    def check(self, name, n, thresh=None):
        thresh = DEFAULT_THRESH if thresh is None else thresh
        require(self.thresh and set(self.thresh) == {thresh}, "detection with thresholds %s, "
                "configured is %s", sorted(set(self.thresh)), thresh)
        require(set(self.seen) <= {name}, "deblended with %s, configured is %s", self.seen,
                name)
        require(n == 0 or self.seen, "nothing was deblended")


SHEAR = {"noshear": (0, 0), "1p": (0.01, 0), "1m": (-0.01, 0), "2p": (0, 0.01),
         "2m": (0, -0.01)}
# planes that neither stop detection nor its statistics
FREE = ("SAT", "INTRP", "CR", "SUSPECT")


@st.composite
def scenes(draw, nmax=3, hi=88):
    w = draw(L.mbexp_st(1, nmax, 72, hi, var="const"))
    w.update(var="const", mask=0.0, double=False)
    for p in w["psf"]:
        p.update(dim=31, T=draw(fl(4.0, 7.0)), norm=1.0,
                 e1=draw(fl(-0.08, 0.08)), e2=draw(fl(-0.08, 0.08)),
                 grad=draw(st.sampled_from([0.0, 0.0, 0.0005])))
    g = w["g"]
    src = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3]))):
        s = {
            "x": draw(st.integers(17, g["nx"] - 18)),
            "y": draw(st.integers(17, g["ny"] - 18)),
            "fx": draw(fl(-0.5, 0.5)), "fy": draw(fl(-0.5, 0.5)),
            "T": draw(fl(3, 7)), "e1": draw(fl(-0.3, 0.3)), "e2": draw(fl(-0.3, 0.3)),
            "sn": [draw(fl(300, 1500)) for _ in w["bands"]],
        }
        if all(max(abs(s["x"] - o["x"]), abs(s["y"] - o["y"])) > 27 for o in src):
            src.append(s)
    return {
        "world": w, "src": src, "seed": draw(seeds),
        "stamp": draw(st.integers(21, 25)),
        "thresh": draw(st.sampled_from([None, None, 4.0, 8.0, 12.0, 20.0])),
        "fwhm": draw(st.sampled_from([None, 6.0, 8.0])),
        "deblender": draw(st.sampled_from(["sdss", "sdss", "scarlet"])),
        "shear": draw(st.one_of(st.none(), st.lists(
            st.integers(0, 2), min_size=1, max_size=2, unique=True))),
        "mfrac": draw(st.sampled_from([None, "some", "some", "zero"])),
        "ormask": draw(st.booleans()),
        "bits": draw(st.booleans()),
        "sky": draw(st.sampled_from(["no", "no", "yes"])),
    }


class Scene:
    def __init__(self, c):
        self.c = c
        w = c["world"]
        self.g = g = w["g"]
        s2 = g["scale"]**2
        self.w = w = dict(w, psf=[dict(p, T=p["T"]*s2) for p in w["psf"]])
        self.nb = nb = len(w["bands"])
        r = np.random.RandomState(c["seed"])
        self.M = M = L.uv_matrix(g)
        shape = (g["ny"], g["nx"])
        y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
        exps, nexps = L.build_exps(w), L.build_exps(w, salt=3)
        ccx, ccy = L.center_of(g)
        self.psfcov = []
        for b, (e, n) in enumerate(zip(exps, nexps)):
            sig = np.sqrt(w["lev"][b])
            e.image.array[:, :] = r.normal(size=shape)*sig
            n.image.array[:, :] = r.normal(size=shape)*sig
            p = w["psf"][b]
            f = max(1 + p["grad"]*(ccx - g["x0"]) + 0.7*p["grad"]*(ccy - g["y0"]), 0.2)
            Cp = p["T"]*f/2*np.array([[1 + p["e1"], p["e2"]], [p["e2"], 1 - p["e1"]]])
            self.psfcov.append(Cp)
            for s in c["src"]:
                C = self.galcov(s) + Cp
                q = np.stack([x - s["x"] - s["fx"], y - s["y"] - s["fy"]], axis=-1) @ M.T
                im = np.exp(-0.5*np.einsum("...i,ij,...j->...", q, np.linalg.inv(C), q))
                # sn: total signal to noise of a matched filter
                e.image.array[:, :] += im*s["sn"][b]*sig/np.sqrt((im**2).sum())
            if c["bits"]:
                for name in FREE:
                    m = r.uniform(size=shape) < 0.3
                    e.mask.array[m] |= afw_image.Mask.getPlaneBitMask(name)
        self.mb, self.nmb = util.get_mbexp(exps), util.get_mbexp(nexps)
        self.bmask = np.bitwise_or.reduce([e.mask.array for e in exps])
        self.mfmb, self.mf = None, np.zeros(shape)
        wt = 1/np.array(w["lev"])
        if c["mfrac"] is not None:
            m = L.build_exps(w, salt=5)
            for e in m:
                e.image.array[:, :] = r.uniform(size=shape)**3 \
                    if c["mfrac"] == "some" else 0
            self.mf = sum(a*e.image.array.astype(float) for a, e in zip(wt, m))/wt.sum()
            self.mfmb = util.get_mbexp(m)
        self.ormasks = None
        if c["ormask"]:
            self.ormasks = [(r.uniform(size=shape) < 0.4).astype("i4")*2**(1 + b)
                            | (r.uniform(size=shape) < 0.3)*2**20 for b in range(nb)]
            self.ormasks = [m.astype("i4") for m in self.ormasks]
        self.om = (np.zeros(shape, "i4") if self.ormasks is None
                   else np.bitwise_or.reduce(self.ormasks))
        self.names = None if c["shear"] is None else [
            w["bands"][i % nb] for i in c["shear"]]
        self.shear = [i for i, b in enumerate(w["bands"])
                      if self.names is None or b in self.names]
        # pixels with default settings have wide weight functions
        self.config = {"stamp_size": c["stamp"], "deblender": c["deblender"],
                       "pgauss": {"fwhm": (c["fwhm"] or 8.0)*g["scale"]}}
        if c["thresh"] is not None:
            self.config["detect"] = {"thresh": c["thresh"]}
        if self.names is not None:
            self.config["shear_bands"] = list(self.names)
        if c["sky"] == "yes":
            self.config["subtract_sky"] = True

    def galcov(self, s):
        T = s["T"]*self.g["scale"]**2
        return T/2*np.array([[1 + s["e1"], s["e2"]], [s["e2"], 1 - s["e1"]]])

    def snap(self):
        out = [L.snap(list(self.mb.singles)), L.snap(list(self.nmb.singles))]
        if self.mfmb is not None:
            out.append(L.snap(list(self.mfmb.singles)))
        return (out, copy.deepcopy(self.ormasks), copy.deepcopy(self.config))

    def unchanged(self, a, b, sky=False):
        """the caller's data; a single band gets DETECTED bits and sky subtraction
        changes the images"""
        DET = afw_image.Mask.getPlaneBitMask("DETECTED")
        for k, (p, q) in enumerate(zip(a[0], b[0])):
            if k == 0:
                q = [(x[0] if not sky else y[0],
                      np.where((x[1] ^ y[1]) & ~DET, x[1], y[1])) + x[2:]
                     for x, y in zip(q, p)]
            if not L.same(p, q):
                return False
        if (a[1] is None) != (b[1] is None) or a[2] != b[2]:
            return False
        return a[1] is None or all(np.array_equal(x, y) for x, y in zip(a[1], b[1]))

    # ----------------------------------------------------------------

    def shear_matrix(self, t):
        g1, g2 = SHEAR[t]
        return np.array([[1 + g1, g2], [g2, 1 - g1]])/np.sqrt(1 - g1**2 - g2**2)

    def position(self, s, t):
        """of a source in the images of a type, (x, y) in the array"""
        cen = np.array([(self.g["nx"] - 1)/2, (self.g["ny"] - 1)/2])
        d = self.M @ (np.array([s["x"] + s["fx"], s["y"] + s["fy"]]) - cen)
        return np.linalg.solve(self.M, self.shear_matrix(t) @ d) + cen

    def shape(self, s, t):
        """(g1, g2, T) of the sheared galaxy"""
        S = self.shear_matrix(t)
        C = S @ self.galcov(s) @ S.T
        T = np.trace(C)
        e1, e2 = (C[0, 0] - C[1, 1])/T, 2*C[0, 1]/T
        g1, g2 = ngmix.shape.e1e2_to_g1g2(e1, e2)
        return g1, g2, T

    def psf_mean(self):
        wt = np.array([1/self.w["lev"][i] for i in self.shear])
        e1 = e2 = T = 0.0
        for a, i in zip(wt/wt.sum(), self.shear):
            C = self.psfcov[i]
            t = np.trace(C)
            T += a*t
            e1 += a*(C[0, 0] - C[1, 1])/t
            e2 += a*2*C[0, 1]/t
        g1, g2 = ngmix.shape.e1e2_to_g1g2(e1, e2)
        return g1, g2, T

    def mfrac_at(self, x, y, fwhm=1.2):
        """Gaussian mean within 5 sigma, in the array"""
        sig = fwhm/np.sqrt(8*np.log(2))
        ny, nx = self.mf.shape
        yy, xx = np.mgrid[:ny, :nx]
        r2 = ((xx - x)**2 + (yy - y)**2)*self.g["scale"]**2
        wt = np.exp(-0.5*r2/sig**2)*(r2 < (5*sig)**2)
        return (wt*self.mf).sum()/wt.sum()

    def check_rows(self, rows, t, what, psf_failed=False, meta=True):
        """annotations of any row, and the sources themselves"""
        g, c = self.g, self.c
        label = "".join("%d" % i for i in self.shear)
        pg1, pg2, pT = self.psf_mean()
        found = {}
        spurious = 0
        for k, row in enumerate(rows):
            me = "%s, row %d" % (what, k)
            x, y = row["col"] - g["x0"], row["row"] - g["y0"]
            require(row["stamp_size"] == c["stamp"], "%s: stamp size", me)
            require(row["row0"] == g["y0"] and row["col0"] == g["x0"], "%s: origin", me)
            require(row["shear_bands"] == label, "%s: shear bands %r, expected %r", me,
                    row["shear_bands"], label)
            px = int(np.floor(x - np.nan_to_num(row["col_diff"]) + 0.5))
            py = int(np.floor(y - np.nan_to_num(row["row_diff"]) + 0.5))
            DET = afw_image.Mask.getPlaneBitMask("DETECTED")
            require(row["bmask"] == self.bmask[py, px] & ~DET, "%s: bmask %s, expected %s",
                    me, row["bmask"], self.bmask[py, px])
            # exact ties are not decided
            near = {int(self.om[int(np.floor(y + 0.5 + d)), int(np.floor(x + 0.5 + f))])
                    for d in (-1e-3, 1e-3) for f in (-1e-3, 1e-3)
                    if 0 <= np.floor(y + 0.5 + d) < g["ny"]
                    and 0 <= np.floor(x + 0.5 + f) < g["nx"]}
            require(int(row["ormask"]) in near, "%s: ormask %s, expected %s", me,
                    row["ormask"], near)
            m = self.mfrac_at(x, y)
            require(abs(row["mfrac"] - m) < 2e-3, "%s: mfrac %s, expected %s", me,
                    row["mfrac"], m)
            if psf_failed:
                require(row["psfrec_flags"] == procflags.PSF_FAILURE,
                        "%s: psfrec_flags %s", me, row["psfrec_flags"])
            else:
                require(row["psfrec_flags"] == 0, "%s: psfrec_flags %s", me,
                        row["psfrec_flags"])
                require(np.allclose(row["psfrec_g"], [pg1, pg2], atol=1e-3)
                        and abs(row["psfrec_T"]/pT - 1) < 2e-3, "%s: the original PSF is "
                        "%s %s, expected %s %s", me, row["psfrec_g"], row["psfrec_T"],
                        (pg1, pg2), pT)
                require(row["psfrec_navg"] == len(self.shear), "%s: psfrec_navg %s", me,
                        row["psfrec_navg"])
            # which source is it
            d = [np.hypot(*(self.position(s, t) - (x, y))) for s in c["src"]]
            if not d or min(d) > 20:
                spurious += 1
            if d and min(d) < 3:
                found.setdefault(int(np.argmin(d)), []).append(row)
        # a five sigma peak of the noise is rare, two are rarer
        few = 2 if (c["thresh"] or 5) >= 5 else 12
        require(spurious < few, "%s: %d rows where there is no source", what, spurious)
        for i, s in enumerate(c["src"]):
            me = "%s, source %d" % (what, i)
            require(i in found, "%s is not found", me)
            # deblending may split the noise off
            row = max(found[i], key=lambda r: np.nan_to_num(r["gauss_s2n"]))
            x, y = self.position(s, t)
            require(abs(row["col"] - g["x0"] - x) < 0.12
                    and abs(row["row"] - g["y0"] - y) < 0.12, "%s is at (%s, %s), "
                    "expected (%s, %s)", me, row["col"] - g["x0"], row["row"] - g["y0"],
                    x, y)
        return found
