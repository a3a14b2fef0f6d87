"""P22: subtracting and re-adding models of blended sources"""
import numpy as np
from hypothesis import strategies as st

import lsst.geom as geom
import lsst.scarlet.lite as scl
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import Finding, Sub, require
from lsst.meas.extensions.scarlet import (
    BlendData, HierarchicalBlendData, ScarletModelData,
)
from lsst.meas.extensions.scarlet.io.utils import updateCatalogFootprints
from lsst.pex.exceptions import LengthError
from metadetect.lsst import util
from metadetect.lsst.model_subtractor import ModelSubtractor

PROPERTY = "P22"
RULE = (
    "1-4 bands at any origin with 1-3 blends of 1-3 overlapping sources each, and "
    "histories of up to 8 operations: nested contexts that add sources back (left "
    "normally or by an exception), stamps, observations, models and boxes of any size "
    "and kind, full models, edits of what was returned, unknown sources; now and then "
    "several times larger, more or brighter; non-trivial: "
    "at least two sources and one context; distinct by full case"
)


class Oops(Exception):
    pass


query = st.fixed_dictionaries({
    "op": st.sampled_from(["stamp", "stamp", "mbobs", "mbobs", "bbox", "model", "full",
                           "bad", "image"]),
    "k": st.integers(0, 8), "size": st.one_of(st.none(), st.integers(1, 24)),
    "clip": st.sampled_from([None, False, True]),
    "type": st.sampled_from([None, "deblended", "original"]),
    "edit": st.booleans(),
})
ops = st.lists(st.one_of(
    query,
    st.fixed_dictionaries({
        "op": st.just("with"), "ks": st.lists(st.integers(0, 8), min_size=1, max_size=3,
                                              unique=True),
        "inner": st.lists(query, max_size=3), "raise": st.booleans(),
        "edit": st.just(False)}),
), min_size=1, max_size=8)


@st.composite
def cases(draw):
    w = draw(L.mbexp_st(1, 4, 10, 36))
    g = w["g"]
    blends = []
    for _ in range(draw(st.integers(1, 3))):
        bx, by = draw(st.integers(0, g["nx"] - 1)), draw(st.integers(0, g["ny"] - 1))
        src = []
        for _ in range(draw(st.integers(1, 3))):
            x = min(max(bx + draw(st.integers(-5, 5)), 0), g["nx"] - 1)
            y = min(max(by + draw(st.integers(-5, 5)), 0), g["ny"] - 1)
            src.append({"x": x, "y": y, "hx": draw(st.integers(0, 3)),
                        "hy": draw(st.integers(0, 3)), "flux": draw(fl(0.1, 100)),
                        "coord": draw(st.booleans()), "bands": draw(st.sampled_from(
                            ["all", "all", "all", "one"]))})
        blends.append(src)
    return {"world": w, "blends": blends, "seed": draw(seeds),
            "pdim": draw(st.sampled_from([1, 3, 5])),
            "order": draw(st.booleans()), "ops": draw(ops)}


def build(c):
    w = c["world"]
    g = w["g"]
    nb = len(w["bands"])
    r = np.random.RandomState(c["seed"])
    mb = util.get_mbexp(L.build_exps(w))
    wcs = mb.singles[0].getWcs()
    box = scl.Box((g["ny"], g["nx"]), (g["y0"], g["x0"]))
    psf = r.uniform(0.1, 1, size=(nb, c["pdim"], c["pdim"]))
    psf /= psf.sum(axis=(1, 2))[:, None, None]
    cat = L.catalog()
    models, peaks, blends, centers = {}, {}, {}, {}
    h = c["pdim"]//2
    sid = 1000
    for j, src in enumerate(c["blends"]):
        par = cat.addNew(j + 1)
        par.setFootprint(L.footprint([(g["x0"], g["y0"])], [(g["x0"], g["y0"])]))
        par["deblend_nChild"] = len(src)
        lst = []
        for s in src:
            sid += 7
            y0, y1 = max(s["y"] - s["hy"], 0), min(s["y"] + s["hy"], g["ny"] - 1)
            x0, x1 = max(s["x"] - s["hx"], 0), min(s["x"] + s["hx"], g["nx"] - 1)
            d = s["flux"]*r.uniform(0.1, 1, size=(nb, y1 - y0 + 1, x1 - x0 + 1))
            if s["bands"] == "one":
                d[1:] = 0
            d = d.astype("f4")
            full = np.zeros((nb, g["ny"] + 2*h, g["nx"] + 2*h))
            for b in range(nb):
                for yy in range(d.shape[1]):
                    for xx in range(d.shape[2]):
                        full[b, y0+yy:y0+yy+c["pdim"], x0+xx:x0+xx+c["pdim"]] += \
                            d[b, yy, xx]*psf[b]
            models[sid] = full[:, h:h+g["ny"], h:h+g["nx"]]
            peaks[sid] = (s["x"], s["y"])
            rec = cat.addNew(sid)
            rec.setParent(j + 1)
            rec["deblend_nChild"] = 0
            cen = geom.Point2D(s["x"] + g["x0"] + r.uniform(-0.7, 0.7),
                               s["y"] + g["y0"] + r.uniform(-0.7, 0.7))
            rec.setCentroid(cen)
            rec.setCoord(wcs.pixelToSky(cen))
            centers[sid] = cen
            lst.append((sid, (y0 + g["y0"], x0 + g["x0"]), d,
                        (s["y"] + g["y0"], s["x"] + g["x0"])))
        blends[j + 1] = HierarchicalBlendData({j + 1: BlendData(lst, box)})
    # a source that was not deblended has no model
    lone = cat.addNew(99)
    lone.setFootprint(L.footprint([(g["x0"], g["y0"])], [(g["x0"], g["y0"])]))
    md = ScarletModelData(blends, {"bands": tuple(w["bands"]), "psf": psf,
                                   "model_psf": np.ones((1, 1))})
    updateCatalogFootprints(md, cat, band=w["bands"][0])
    return mb, cat, md, models, peaks, centers


class Run:
    def __init__(self, c, ctx):
        self.c, self.ctx = c, ctx
        self.w, self.g = c["world"], c["world"]["g"]
        mb, cat, md, self.models, self.peaks, self.cens = build(c)
        self.mb, self.cat = mb, cat
        self.before = L.snap(mb.singles)
        self.ids = sorted(self.models)
        self.ms = ModelSubtractor(mbexp=mb, sources=cat, model_data=md)
        self.added = []
        self.scale = max([np.abs(s[0]).max() for s in self.before]
                         + [m.max() for m in self.models.values()])
        self.tol = self.scale*2e-5

    def state(self, b):
        s = self.before[b][0].astype(float)
        for i, m in self.models.items():
            s = s - m[b]*(1 - self.added.count(i))
        return s

    def check_image(self):
        ms = self.ms
        require(tuple(ms.mbexp.bands) == tuple(self.w["bands"]), "bands")
        for b, band in enumerate(self.w["bands"]):
            e = ms.mbexp[band]
            d = np.abs(e.image.array - self.state(b))
            require(np.all(d < self.tol),
                    "%s: the image differs from data minus models by %g in %d pixels",
                    band, d.max(), (d > self.tol).sum())
            require(np.array_equal(e.mask.array, self.before[b][1])
                    and np.array_equal(e.variance.array, self.before[b][2]),
                    "%s: mask or variance changed", band)

    def box(self, i, size, clip):
        """(x0, y0, x1, y1) inclusive, or None if refused"""
        g = self.g
        if size is None:
            y, x = np.nonzero(self.models[i].max(axis=0) > 0)
            return x.min(), y.min(), x.max(), y.max()
        h = size//2
        px, py = self.peaks[i]
        x0, y0, x1, y1 = px - h, py - h, px + h, py + h
        if clip:
            return max(x0, 0), max(y0, 0), min(x1, g["nx"]-1), min(y1, g["ny"]-1)
        if x0 < 0 or y0 < 0 or x1 >= g["nx"] or y1 >= g["ny"]:
            return None
        return x0, y0, x1, y1

    def geombox(self, bx):
        g = self.g
        return geom.Box2I(geom.Point2I(bx[0] + g["x0"], bx[1] + g["y0"]),
                          geom.Point2I(bx[2] + g["x0"], bx[3] + g["y0"]))

    def query(self, q):
        ms, op = self.ms, q["op"]
        i = self.ids[q["k"] % len(self.ids)]
        self.ctx.note(op)
        if op == "bad":
            bad = [1, 99, 5][q["k"] % 3]
            for f in (ms.get_stamp, ms.get_mbobs, ms.get_bbox, ms.get_model,
                      ms.check_source_id):
                try:
                    f(bad)
                except ValueError:
                    continue
                require(False, "%s serves a source without model", f.__name__)
            try:
                with ms.add_source(bad):
                    pass
            except ValueError:
                return
            require(False, "add_source serves a source without model")
        if op == "image":
            return self.check_image()
        if op == "full":
            full = ms.get_full_model()
            require(full.getBBox() == self.mb.getBBox(), "box of the full model")
            for b, band in enumerate(self.w["bands"]):
                e = sum(m[b] for m in self.models.values())
                require(np.all(np.abs(full[band].image.array - e) < self.tol),
                        "%s: full model is not the sum of the models", band)
                require(full[band].getWcs() is self.before[b][4], "WCS of the full model")
                if q["edit"]:
                    full[band].image.array[:, :] = 5e5
            return
        if op == "model":
            m = ms.get_model(i)
            bx = self.box(i, None, False)
            require(m.getBBox() == self.geombox(bx), "box of the model")
            for b, band in enumerate(self.w["bands"]):
                e = self.models[i][b, bx[1]:bx[3]+1, bx[0]:bx[2]+1]
                require(np.all(np.abs(m[band].image.array - e) < self.tol),
                        "%s: the model of %d is not its own", band, i)
                require(m[band].getFilter().bandLabel == band, "filter of the model")
                if q["edit"]:
                    m[band].image.array[:, :] = 5e5
            s = ms.get_stamp(i, type="model")
            require(all(np.array_equal(s[b].image.array, m[b].image.array)
                        or q["edit"] for b in self.w["bands"]), "stamp of type model")
            return
        kw = {} if q["clip"] is None else {"clip": q["clip"]}
        if q["size"] is not None:
            kw["stamp_size"] = q["size"]
        bx = self.box(i, q["size"], q["clip"])
        if op != "bbox" and q["type"] is not None:
            kw["type"] = q["type"]
        try:
            out = {"stamp": ms.get_stamp, "mbobs": ms.get_mbobs,
                   "bbox": ms.get_bbox}[op](i, **kw)
        except LengthError:
            require(bx is None, "a stamp that fits was refused")
            return
        except util.AllZeroWeightError:
            require(op == "mbobs" and any(
                self.no_weight(s[2][bx[1]:bx[3]+1, bx[0]:bx[2]+1])
                for s in self.before), "a stamp with weight was refused")
            return
        require(bx is not None, "a stamp reaching out of the image was not refused")
        if op == "bbox":
            require(out == self.geombox(bx), "box %s, expected %s", out, self.geombox(bx))
            return
        sl = np.s_[bx[1]:bx[3]+1, bx[0]:bx[2]+1]
        g = self.g
        for b, band in enumerate(self.w["bands"]):
            im = (self.before[b][0] if q["type"] == "original" else self.state(b))[sl]
            mask, var = self.before[b][1][sl], self.before[b][2][sl]
            if op == "stamp":
                require(tuple(out.bands) == tuple(self.w["bands"])
                        and out.getBBox() == self.geombox(bx), "bands or box of the stamp")
                a = out[band].image.array
                require(np.array_equal(out[band].mask.array, mask)
                        and np.array_equal(out[band].variance.array, var),
                        "%s: mask or variance of the stamp", band)
                require(out[band].getWcs() is self.before[b][4]
                        and out[band].getFilter().bandLabel == band, "WCS or filter")
                at = geom.Point2D(g["x0"] + 2.0, g["y0"] + 3.0)
                require(np.allclose(out[band].getPsf().computeKernelImage(at).array,
                                    self.before[b][3].array(at.x, at.y), atol=1e-8),
                        "%s: PSF of the stamp", band)
            else:
                require(len(out) == len(self.w["bands"]) and len(out[b]) == 1
                        and out[b].meta["band"] == band, "bands of the observation")
                o = out[b][0]
                a = o.image
                ok = np.isfinite(var) & (var > 0)
                require(np.allclose(o.weight[ok], 1/np.median(var[var > 0].astype(float)),
                                    rtol=1e-5), "%s: weight", band)
                require(np.array_equal(o.bmask, mask), "%s: mask", band)
                cen = self.cens[i]
                require(abs(o.jacobian.col0 - (cen.x - g["x0"] - bx[0])) < 5e-4
                        and abs(o.jacobian.row0 - (cen.y - g["y0"] - bx[1])) < 5e-4,
                        "%s: the WCS is not centred on the source", band)
                require(np.allclose(o.psf.image, self.before[b][3].array(cen.x, cen.y),
                                    rtol=1e-4, atol=1e-7), "%s: PSF", band)
            require(a.shape == im.shape and np.all(np.abs(a - im) < self.tol),
                    "%s: %s of %d (added: %s) is not the %s data", band, op, i,
                    self.added, q["type"] or "deblended")
            if q["edit"] and op == "stamp":
                a[:, :] = 5e5
        if op == "stamp":
            # kept stamps must not change later
            self.kept.append((out, [out[b].image.array.copy() for b in self.w["bands"]]))

    @staticmethod
    def no_weight(var):
        p = var[var > 0].astype(float)
        return p.size == 0 or not np.isfinite(np.median(p))

    def run(self):
        c = self.c
        self.kept = []
        if len(self.ids) > 1 and any(o["op"] == "with" for o in c["ops"]):
            self.ctx.nontrivial()
        require(sorted(self.ms.child_ids()) == self.ids, "ids of the children")
        require([s.getId() for s in self.ms.children()] == list(self.ms.child_ids()),
                "children are not those of the ids")
        for o in c["ops"]:
            if o["op"] != "with":
                self.query(o)
                continue
            self.enter(list(dict.fromkeys(
                self.ids[k % len(self.ids)] for k in o["ks"])), o)
            require(self.added == [], "harness")
            self.check_image()
        self.check_image()
        for out, arrs in self.kept:
            require(all(np.array_equal(out[b].image.array, a)
                        for b, a in zip(self.w["bands"], arrs)),
                    "a stamp changed after it was returned")
        require(L.same(self.before, L.snap(self.mb.singles)), "the original changed")
        require(self.ms.orig is self.mb, "the original was replaced")

    def enter(self, ids, o):
        if not ids:
            for q in o["inner"]:
                self.query(q)
            if o["raise"]:
                raise Oops()
            return
        raised = False
        try:
            with self.ms.add_source(ids[0]) as inside:
                self.added.append(ids[0])
                require(inside is self.ms.mbexp, "the context does not give the image")
                self.check_image()
                self.enter(ids[1:], o)
        except Oops:
            raised = True
        self.added.remove(ids[0])
        require(raised == o["raise"], "an exception in the context was swallowed")
        self.check_image()
        if raised and self.added:
            raise Oops()


def check(c, ctx):
    ctx.note("%d bands" % len(c["world"]["bands"]))
    Run(c, ctx).run()


def small():
    g = {"ny": 20, "nx": 20, "x0": 0, "y0": 0, "scale": 0.2, "rot": 0.0, "flip": False,
         "ra": 20.0, "dec": 0.0, "ox": 0.0, "oy": 0.0}
    p = {"dim": 7, "T": 0.3, "e1": 0.0, "e2": 0.0, "grad": 0.0, "noclone": False,
         "norm": 1.0}
    w = {"g": g, "bands": ["r", "i"], "seed": 1, "psf": [p, p], "lev": [1.0, 1.0],
         "var": "const", "mask": 0.0, "double": False}
    c = {"world": w, "seed": 1, "pdim": 3, "blends": [[
        {"x": 10, "y": 10, "hx": 1, "hy": 1, "flux": 9.0, "coord": True,
         "bands": "all"}]], "ops": []}
    mb, cat, md = build(c)[:3]
    return ModelSubtractor(mbexp=mb, sources=cat, model_data=md)


def probe_model_size():
    m = small()
    i = list(m.child_ids())[0]
    b = m.get_model(i, stamp_size=12).getBBox()
    if b.getWidth() != 13:
        return ("get_model(stamp_size=12) returns the %dx%d box of the footprint"
                % (b.getWidth(), b.getHeight()))


def probe_model_obs():
    import ngmix
    m = small()
    i = list(m.child_ids())[0]
    o = m.get_mbobs(i, type="model")
    if not isinstance(o, ngmix.MultiBandObsList):
        return "get_mbobs(type='model') returns a %s" % type(o).__name__


FINDINGS = [Finding("model-stamp-size", probe_model_size),
            Finding("model-mbobs", probe_model_obs)]

SUBS = [Sub("history", cases(), check, 4000, 40000)]
