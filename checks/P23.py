"""P23: replacing sources by noise"""
import numpy as np
from hypothesis import strategies as st

import lsst.afw.image as afw_image
from lib import lsstworld as L
from lib.gen import fl, seeds
from lib.harness import Sub, require
from metadetect.lsst import util

PROPERTY = "P23"
RULE = (
    "1-3 bands at any origin with 1-5 separate detections, some with children, replaced "
    "by noise in one band or all, with histories of nested insertions that end normally "
    "or by an exception, before an ordinary, early or exceptional end; noise images of "
    "exposures with any variance map and gain; now and then "
    "several times larger, more or brighter; non-trivial: two or more sources or "
    "varying variance; distinct by full case"
)


class Oops(Exception):
    pass


@st.composite
def cases(draw):
    w = draw(L.mbexp_st(1, 3, 24, 48))
    w["double"] = False
    g = w["g"]
    # separate rectangles on a coarse grid
    step = 8
    cells = [(i, j) for i in range(g["nx"]//step) for j in range(g["ny"]//step)]
    pick = draw(st.lists(st.integers(0, len(cells) - 1), min_size=1, max_size=5,
                         unique=True))
    src = []
    for k in pick:
        i, j = cells[k]
        src.append({"x": i*step, "y": j*step, "wx": draw(st.integers(1, step - 1)),
                    "wy": draw(st.integers(1, step - 1)),
                    "kids": draw(st.sampled_from([0, 0, 1, 2])),
                    "id": 0, "holes": draw(st.booleans())})
    ids = draw(st.lists(st.integers(1, 10**6), min_size=20, max_size=20, unique=True))
    return {
        "world": w, "src": src, "ids": ids, "seed": draw(seeds),
        "which": draw(st.sampled_from(["multi", "multi", "single", "given", "plain",
                                       "config"])),
        "steps": draw(st.lists(st.fixed_dictionaries({
            "ks": st.lists(st.integers(0, 14), min_size=1, max_size=3, unique=True),
            "raise": st.booleans(), "how": st.sampled_from(["with", "with", "calls"]),
        }), max_size=5)),
        "end": draw(st.sampled_from(["with", "raise", "end"])),
    }


def build_cat(c, mb):
    g = c["world"]["g"]
    cat = L.catalog()
    r = np.random.RandomState(c["seed"])
    ids = iter(c["ids"])
    fps, top = {}, {}
    for s in c["src"]:
        pix = [(x, y) for x in range(s["x"], s["x"] + s["wx"])
               for y in range(s["y"], s["y"] + s["wy"])]
        if s["holes"] and len(pix) > 3:
            pix = [p for p in pix if r.uniform() < 0.7] or pix[:1]
        i = next(ids)
        rec = cat.addNew(i)
        rec["deblend_nChild"] = s["kids"]
        fps[i], top[i] = pix, i
        for _ in range(s["kids"]):
            k = next(ids)
            kid = cat.addNew(k)
            kid.setParent(i)
            fps[k] = [p for p in pix if r.uniform() < 0.6] or pix[-1:]
            top[k] = i
    for rec in cat:
        pix = fps[rec.getId()]
        rec.setFootprint(L.footprint(
            [(x + g["x0"], y + g["y0"]) for x, y in pix],
            [(pix[0][0] + g["x0"], pix[0][1] + g["y0"])]))
    out = {}
    for i, pix in fps.items():
        m = np.zeros((g["ny"], g["nx"]), dtype=bool)
        for x, y in pix:
            m[y, x] = True
        out[i] = m
    return cat, out, top


def white(z, what):
    """z should be independent unit normals"""
    n = z.size
    if n < 20:
        return
    require(abs(z.mean()) < 6/np.sqrt(n), "%s: mean %g of %d", what, z.mean(), n)
    require(abs((z**2).sum() - n) < 7*np.sqrt(2*n) + 15, "%s: variance ratio %g of %d",
            what, (z**2).mean(), n)


def median_var(e):
    v = e.variance.array.astype(float)
    return np.median(v[np.isfinite(v) & np.isfinite(e.image.array)])


def check(c, ctx):
    w = c["world"]
    g = w["g"]
    which = c["which"]
    np.random.seed(c["seed"] % 2**31)

    def make():
        mb = util.get_mbexp(L.build_exps(w))
        cat, fps, top = build_cat(c, mb)
        r = np.random.RandomState(c["seed"])
        if which == "multi":
            rep = util.MultibandNoiseReplacer(mbexp=mb, sources=cat, rng=r)
            exps = list(mb.singles)
        else:
            exps = [mb.singles[-1]]
            kw = {}
            if which in ("given", "plain"):
                n = afw_image.ExposureF(exps[0], True)
                n.image.array[:, :] = np.random.RandomState(4).normal(
                    size=n.image.array.shape)
                kw["noise_image"] = n.getMaskedImage()
                make.noise = n.image.array.copy()
            if which == "config":
                from lsst.meas.base import NoiseReplacerConfig
                kw["config"] = NoiseReplacerConfig()
            if which == "plain":
                rep = util.get_noise_replacer(exps[0], cat, **kw)
            else:
                rep = util.ContextNoiseReplacer(exps[0], cat, r, **kw)
        return rep, exps, fps, top

    fresh = L.build_exps(w)
    fresh = fresh if which == "multi" else fresh[-1:]
    before = L.snap(fresh)
    sig = [np.sqrt(median_var(e)) for e in fresh]
    rep, exps, fps, top = make()
    alld = np.any(list(fps.values()), axis=0)
    if len(fps) > 1:
        ctx.nontrivial()
    ctx.note(which)
    noise = [e.image.array.copy() for e in exps]
    for e, s, n, sg in zip(exps, before, noise, sig):
        require(np.array_equal(n[~alld], s[0][~alld]), "pixels without sources changed")
        if which in ("given", "plain"):
            require(np.array_equal(n[alld], make.noise[alld]),
                    "not replaced by the given noise")
        elif sg == 0:
            require(not np.any(n[alld]), "noise without variance")
        else:
            require(not np.any(n[alld] == s[0][alld]), "a source is not replaced")
            white(n[alld].astype(float)/sg, "noise")
    if len(noise) > 1 and min(sig) > 0 and alld.sum() > 5:
        a, b = noise[0][alld]/sig[0], noise[1][alld]/sig[1]
        require(not np.allclose(a, b, rtol=1e-3), "the same noise in two bands")
    # reproducible from the generator alone
    np.random.seed(5)
    again = make()[1]
    require(all(np.array_equal(a.image.array, n) for a, n in zip(again, noise)),
            "the noise does not follow from the given generator")

    def expect(inserted, what):
        for e, s, n in zip(exps, before, noise):
            x = n.copy()
            for i in inserted:
                x[fps[i]] = s[0][fps[i]]
            require(np.array_equal(e.image.array, x), "%s, inserted %s: wrong pixels",
                    what, inserted)
            require(np.array_equal(e.variance.array, s[2]), "variance changed")

    def enter(ids, inside, s):
        if not ids:
            if s["raise"]:
                raise Oops()
            return
        raised = False
        i = ids[0]
        now = inside + [i]
        try:
            if s["how"] == "with" and which != "plain":
                with rep.sourceInserted(i):
                    expect(now, "inside")
                    enter(ids[1:], now, s)
            else:
                rep.insertSource(i)
                expect(now, "inserted")
                try:
                    enter(ids[1:], now, s)
                finally:
                    rep.removeSource(i)
        except Oops:
            raised = True
        require(raised == s["raise"], "the exception was swallowed")
        expect(inside, "after")
        if raised and inside:
            raise Oops()

    def steps():
        expect([], "start")
        allids = sorted(fps)
        for s in c["steps"]:
            ids = []
            for k in s["ks"]:
                i = allids[k % len(allids)]
                # of one blend insert only one at a time
                if top[i] not in [top[j] for j in ids]:
                    ids.append(i)
            enter(ids, [], s)
        if c["end"] == "raise":
            raise Oops()

    try:
        if c["end"] == "end" or which == "plain":
            try:
                steps()
            finally:
                rep.end()
        else:
            with rep as r:
                require(r is rep, "the context does not give the replacer")
                steps()
    except Oops:
        require(c["end"] == "raise", "harness")
    else:
        require(c["end"] != "raise", "the exception was swallowed at the end")
    for e, s in zip(exps, before):
        require(np.array_equal(e.image.array, s[0]) and np.array_equal(e.mask.array, s[1])
                and np.array_equal(e.variance.array, s[2]), "not restored at the end")
    _ = g


class Amp:
    def __init__(self, g):
        self.g = g

    def getGain(self):
        return self.g


class Detector(list):
    def getAmplifiers(self):
        return list(self)


ni = st.fixed_dictionaries({
    "world": L.mbexp_st(1, 1, 8, 48), "seed": seeds, "poisson": st.booleans(),
    "gains": st.lists(fl(0.7, 5), min_size=1, max_size=4), "nan": st.booleans(),
    "level": st.sampled_from([0.0, 1.0, 3.0])})


def check_noise(c, ctx):
    w = dict(c["world"], double=False)
    e = L.build_exps(w)[0]
    r = np.random.RandomState(c["seed"])
    shape = e.image.array.shape
    if c["poisson"]:
        # variance = read noise + signal/gain
        gain = np.mean(c["gains"])
        ok = np.isfinite(e.variance.array)
        sig = c["level"]*gain*r.uniform(0.5, 2, size=shape)
        e.image.array[:, :] = sig
        e.variance.array[ok] += (sig/gain)[ok]
        e.setDetector(Detector(Amp(v) for v in c["gains"]))
    if c["nan"]:
        e.image.array[0, 0] = np.nan
    before = L.snap([e])
    var, im = before[0][2].astype(float), before[0][0].astype(float)
    use = np.isfinite(var) & np.isfinite(im)
    if not use.any():
        return
    exp = np.median((var - im/np.mean(c["gains"]))[use]) if c["poisson"] \
        else np.median(var[use])
    if exp <= 1e-4:
        return
    if np.ptp(var[use]) > 0:
        ctx.nontrivial()
    ctx.note("poisson" if c["poisson"] else "total")
    out = util.get_noise_image(e, np.random.RandomState(c["seed"]), c["poisson"])
    require(L.same(before, L.snap([e])), "the exposure was modified")
    v = out.variance.array
    require(v.shape == shape and np.all(v == v[0, 0]) and abs(v[0, 0]/exp - 1) < 1e-3,
            "variance %s, expected %s everywhere", v.flat[0], exp)
    n = out.image.array
    require(n.shape == shape and np.all(np.isfinite(n)), "noise shape")
    require(out.getBBox() == e.getBBox(), "box of the noise")
    z = n.astype(float)/np.sqrt(exp)
    white(z.ravel(), "noise image")
    for a, b in ((z[1:], z[:-1]), (z[:, 1:], z[:, :-1])):
        cc = (a*b).sum()/np.sqrt(a.size)
        require(abs(cc) < 7, "the noise of neighbouring pixels is correlated")
    two = util.get_noise_image(e, np.random.RandomState(c["seed"]), c["poisson"])
    require(np.array_equal(two.image.array, n), "not reproducible")


SUBS = [Sub("history", cases(), check, 3000, 30000),
        Sub("noise-image", ni, check_noise, 2000, 20000)]
