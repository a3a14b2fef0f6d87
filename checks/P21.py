"""P21: stamps around LSST sources"""
import numpy as np
from hypothesis import strategies as st

import lsst.geom as geom
from lib import lsstworld as L
from lib.gen import fl, rare
from lib.harness import Sub, require
from lsst.pex.exceptions import LengthError
from metadetect.lsst import util
from metadetect.lsst.mbobs_extractor import MBObsExtractor

PROPERTY = "P21"
RULE = (
    "1-4 band exposures at any origin, 1-8 sources (parents and children) with several "
    "peaks, centroids away from the peak, even and odd stamp sizes that fit or reach out "
    "of the image, clipped or not; now and then "
    "several times larger, more or brighter; non-trivial: a stamp was cut; distinct by full case"
)


@st.composite
def cases(draw):
    w = draw(L.mbexp_st(1, 4, 6, 40))
    g = w["g"]
    src = []
    for _ in range(draw(rare(st.integers(1, 8), st.integers(8, 30)))):
        where = draw(st.sampled_from(["any", "any", "corner", "middle"]))
        if where == "any":
            x, y = draw(st.integers(0, g["nx"] - 1)), draw(st.integers(0, g["ny"] - 1))
        elif where == "corner":
            x, y = draw(st.sampled_from([0, g["nx"] - 1])), draw(
                st.sampled_from([0, g["ny"] - 1]))
        else:
            x, y = g["nx"]//2, g["ny"]//2
        src.append({
            "x": x, "y": y, "frac": [draw(fl(0, 0.9)), draw(fl(0, 0.9))],
            "dx": draw(fl(-2, 2)), "dy": draw(fl(-2, 2)),
            "nchild": draw(st.sampled_from([0, 0, 0, 2])),
            "parent": draw(st.sampled_from([0, 0, 7, 10**7])),
            "id": draw(st.integers(1, 10**6)), "coord": draw(st.booleans()),
        })
    seen = set()
    src = [s for s in src if not (s["id"] in seen or seen.add(s["id"]))]
    return {"world": w, "src": src, "size": draw(rare(st.integers(1, 24), st.integers(24, 100))),
            "clip": draw(st.sampled_from([None, False, True])),
            "via": draw(st.sampled_from(["util", "extractor"])),
            "asks": draw(st.lists(st.integers(0, 8), max_size=3))}


def build(c):
    w = c["world"]
    g = w["g"]
    mb = util.get_mbexp(L.build_exps(w))
    wcs = mb.singles[0].getWcs()
    cat = L.catalog()
    for s in c["src"]:
        r = cat.addNew(s["id"])
        px, py = s["x"] + g["x0"], s["y"] + g["y0"]
        r.setFootprint(L.footprint(
            [(px, py), (px + 1, py)],
            [(px + (s["frac"][0] if px >= 0 else 0), py + (s["frac"][1] if py >= 0 else 0)),
             (px + 4, py - 3)]))
        cen = geom.Point2D(px + s["dx"], py + s["dy"])
        r.setCentroid(cen)
        if s["coord"]:
            r.setCoord(wcs.pixelToSky(cen))
        r["deblend_nChild"] = s["nchild"]
        r.setParent(s["parent"])
    return mb, cat


def calls(ext, sid, size, kw):
    def add():
        with ext.add_source(sid):
            pass
    return [("adding", add), ("observations", lambda: ext.get_mbobs(sid, size, **kw)),
            ("stamp", lambda: ext.get_stamp(sid, size, **kw))]


def outcome(what):
    try:
        return "ok", what[1]()
    except LengthError:
        return "long", None
    except util.AllZeroWeightError:
        return "weight", None
    except ValueError:
        return "unknown", None


def check(c, ctx):
    w = c["world"]
    g = w["g"]
    mb, cat = build(c)
    before = L.snap(mb.singles)
    kw = {} if c["clip"] is None else {"clip": c["clip"]}
    h = c["size"]//2
    ext = None
    if c["via"] == "extractor":
        ext = MBObsExtractor(mb, cat)
        kids = [s.getId() for s in ext.children()]
        want = sorted(s["id"] for s in c["src"] if s["nchild"] == 0)
        require(sorted(kids) == want, "children %s, expected %s", sorted(kids), want)
        require(sorted(ext.child_ids()) == want, "child ids")
        for k in c["asks"]:
            bad = max([s["id"] for s in c["src"]]) + 1 + k
            for what in calls(ext, bad, 8, {}):
                require(outcome(what)[0] == "unknown",
                        "%s of a source that does not exist", what[0])
    for s in c["src"]:
        rec = cat.find(s["id"])
        x0, x1 = s["x"] - h, s["x"] + h
        y0, y1 = s["y"] - h, s["y"] + h
        fits = x0 >= 0 and y0 >= 0 and x1 < g["nx"] and y1 < g["ny"]
        if c["clip"]:
            x0, y0 = max(x0, 0), max(y0, 0)
            x1, y1 = min(x1, g["nx"] - 1), min(y1, g["ny"] - 1)
        refuse = not fits and not c["clip"]
        parent = ext is not None and s["nchild"] > 0
        try:
            bare = util.get_bbox(mb, rec, c["size"], **kw)
        except LengthError:
            bare = None
        require(bare is not None or refuse, "the box of a stamp that fits was refused")
        require(bare is None or not refuse,
                "the box of a stamp that does not fit, without clipping: %s", bare)
        if ext is not None:
            for what in calls(ext, s["id"], c["size"], kw):
                how = outcome(what)[0]
                want = ("unknown" if parent else
                        "long" if refuse and what[0] != "adding" else "ok")
                require(how == want or (how == "weight" and want == "ok"
                                        and what[0] == "observations"),
                        "%s: %s, expected %s", what[0], how, want)
        try:
            if ext is None:
                box = util.get_bbox(mb, rec, c["size"], **kw)
                mbobs = util.get_stamp_mbobs(mb, rec, c["size"], **kw)
                stamp = None
            else:
                with ext.add_source(s["id"]):
                    mbobs = ext.get_mbobs(s["id"], c["size"], **kw)
                stamp = ext.get_stamp(s["id"], c["size"], **kw)
                box = stamp.getBBox()
        except LengthError:
            require(refuse and not parent, "a stamp that fits was refused")
            ctx.note("does not fit")
            continue
        except ValueError:
            require(parent, "a child was refused")
            continue
        except util.AllZeroWeightError:
            require(any(not np.any((v[2][y0:y1+1, x0:x1+1] > 0)
                                   & np.isfinite(v[2][y0:y1+1, x0:x1+1])) or
                        np.isinf(np.median(v[2][y0:y1+1, x0:x1+1][
                            v[2][y0:y1+1, x0:x1+1] > 0])) for v in before),
                    "a stamp with weight was refused")
            ctx.note("no weight")
            continue
        require(not parent, "a parent was accepted")
        require(not refuse, "a stamp that does not fit was made without clipping")
        ctx.nontrivial()
        ctx.note("clipped" if not fits else "whole")
        e = geom.Box2I(geom.Point2I(x0 + g["x0"], y0 + g["y0"]),
                       geom.Point2I(x1 + g["x0"], y1 + g["y0"]))
        require(box == e, "box %s, expected %s", box, e)
        require(len(mbobs) == len(w["bands"]), "number of bands")
        cx, cy = s["x"] + s["dx"] - x0, s["y"] + s["dy"] - y0
        if not s["coord"]:
            cx, cy = s["x"] - x0, s["y"] - y0
        for i, b in enumerate(w["bands"]):
            im, mask, var = (p[y0:y1+1, x0:x1+1] for p in before[i][:3])
            require(len(mbobs[i]) == 1 and mbobs[i].meta["band"] == b, "band %s", b)
            o = mbobs[i][0]
            require(o.image.shape == im.shape and np.array_equal(o.image, im),
                    "image of %s is not the cut-out", b)
            require(np.array_equal(o.bmask, mask), "mask of %s is not the cut-out", b)
            v = var[var > 0].astype(float)
            ok = np.isfinite(var) & (var > 0)
            require(np.allclose(o.weight[ok], 1/np.median(v), rtol=1e-5),
                    "weight of %s is not 1/median variance of the stamp", b)
            require(abs(o.jacobian.col0 - cx) < 5e-4 and abs(o.jacobian.row0 - cy) < 5e-4,
                    "%s: the WCS of the stamp is not centred on the source", b)
            ref = before[i][3].array(g["x0"] + s["x"] + s["dx"], g["y0"] + s["y"] + s["dy"])
            require(np.allclose(o.psf.image, ref, rtol=1e-4, atol=1e-7),
                    "PSF of %s is not that at the source", b)
            if stamp is not None:
                t = stamp[b]
                require(np.array_equal(t.image.array, im)
                        and np.array_equal(t.mask.array, mask)
                        and np.array_equal(t.variance.array, var), "stamp of %s", b)
                require(t.getWcs() is before[i][4] and t.getFilter().bandLabel == b,
                        "WCS or filter of the stamp of %s", b)
    require(L.same(before, L.snap(mb.singles)), "the exposures were modified")


SUBS = [Sub("stamps", cases(), check, 5000, 60000)]
