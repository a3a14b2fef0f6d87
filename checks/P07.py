"""P07: detection image, stamps and stamp sizes"""
import numpy as np
import ngmix
import sxdes
from hypothesis import strategies as st

from lib.gen import fl, rare, seeds
from lib.harness import Sub, require
from lib.obs import build_plane_mbobs, jac_st, make_jac, plane_mbobs_st, same_snap, snap_mbobs
from metadetect.defaults import ALLOWED_BOX_SIZES, BMASK_EDGE
from metadetect.detect import CatalogMEDSifier, MEDSifier, MEDSInterface

PROPERTY = "P07"
RULE = (
    "1-4 bands of 3-24 pixel random planes with general WCS and PSF sizes; "
    "catalogues of 0-6 positions on, at the border of and off the image with "
    "stamp sizes 2-48; detection configurations with both size rules and arbitrary "
    "limits, mask bits excluded from detection; now and then "
    "several times larger, more or brighter; non-trivial: a stamp overlaps the "
    "image border, or several bands/masked pixels enter the detection image, or "
    "two different stamp sizes; distinct by full case"
)
FILL = {"image": 0, "weight": 0, "noise": 0, "seg": 0, "bmask": BMASK_EDGE}


@st.composite
def mbobs_st(draw, **kw):
    c = draw(plane_mbobs_st(**kw))
    c["jac"] = draw(jac_st())
    c["psf"] = [draw(st.integers(3, 7)), draw(st.integers(3, 7))]
    return c


def build(c):
    mbobs = build_plane_mbobs(c)
    r = np.random.RandomState(c["seed"] ^ 0x5555)
    jac = make_jac(c["jac"], (c["ny"], c["nx"]))
    for ol in mbobs:
        for obs in ol:
            obs.set_jacobian(jac)
            obs.psf = ngmix.Observation(r.uniform(0.1, 1, size=c["psf"]))
    return mbobs


@st.composite
def stamp_cases(draw):
    m = draw(mbobs_st())
    pos = []
    for _ in range(draw(rare(st.integers(0, 6), st.integers(6, 40), 16))):
        pad = draw(st.sampled_from([0, 0, 3, 30]))
        pos.append([draw(fl(-pad, m["nx"]-1+pad)), draw(fl(-pad, m["ny"]-1+pad)),
                    draw(st.one_of(st.integers(2, 12),
                                   st.sampled_from([16, 24, 32, 48, 64, 128])))])
    return {"mbobs": m, "pos": pos, "seg": draw(st.booleans()),
            "number": draw(st.booleans()),
            "weight_type": draw(st.sampled_from(["weight", "weight", "uberseg"]))}


def expected_cut(full, y, x, box, fill):
    """the stamp whose lower corner is int(pos) - box//2 + 1, clipped at zero"""
    y0, x0 = max(0, int(y) - box//2 + 1), max(0, int(x) - box//2 + 1)
    out = np.full((box, box), fill, dtype=full.dtype)
    h, w = min(box, full.shape[0]-y0), min(box, full.shape[1]-x0)
    if h > 0 and w > 0:
        out[:h, :w] = full[y0:y0+h, x0:x0+w]
    return out, y0, x0, not (h >= box and w >= box)


def check_stamps(case, ctx):
    mbobs = build(case["mbobs"])
    before = snap_mbobs(mbobs)
    r = np.random.RandomState(case["mbobs"]["seed"] ^ 0x1234)
    dims = mbobs[0][0].image.shape
    x = np.array([p[0] for p in case["pos"]], dtype="f4")
    y = np.array([p[1] for p in case["pos"]], dtype="f4")
    box = np.array([p[2] for p in case["pos"]], dtype="i8")
    seg = r.randint(0, 3, size=dims).astype("i4") if case["seg"] else None
    number = (np.arange(x.size) + 1) if case["number"] else None
    cm = CatalogMEDSifier(mbobs, x, y, box, seg=seg, number=number)
    mbm = cm.get_multiband_meds()
    require(len(cm.cat) == x.size, "catalogue length changed")
    wtype = case["weight_type"]
    mbl = mbm.get_mbobs_list(weight_type=wtype)
    require(len(mbl) == x.size, "%d positions, %d stamps", x.size, len(mbl))
    segfull = seg if seg is not None else np.zeros(dims, dtype="i4")
    off = set()
    for i in range(x.size):
        require(len(mbl[i]) == len(mbobs), "stamp %d misses bands", i)
        for b in range(len(mbobs)):
            full = mbobs[b][0]
            m = mbm.mlist[b]
            exp = {}
            for t in ("image", "weight", "noise", "bmask", "seg"):
                src = segfull if t == "seg" else np.array(getattr(full, t))
                e, y0, x0, clipped = expected_cut(
                    src, float(y[i]), float(x[i]), int(box[i]), FILL[t])
                exp[t] = e
                got = m.get_cutout(i, 0, type=t)
                require(np.array_equal(got, e),
                        "stamp %d band %d: %s cutout differs", i, b, t)
            if clipped:
                ctx.nontrivial()
                ctx.note("clipped")
            if wtype == "uberseg":
                continue
            if not np.any(exp["weight"] > 0):
                ctx.note("no weight")
                require(len(mbl[i][b]) == 0, "stamp without any weight was kept")
                continue
            require(len(mbl[i][b]) == 1, "expected one exposure")
            obs = mbl[i][b][0]
            for t in ("image", "weight", "noise", "bmask"):
                require(np.array_equal(getattr(obs, t), exp[t]),
                        "stamp %d band %d: %s differs", i, b, t)
            j, fj = obs.jacobian, full.jacobian
            for n in ("dudrow", "dudcol", "dvdrow", "dvdcol"):
                require(abs(getattr(j, n) - getattr(fj, n)) < 1e-12,
                        "stamp WCS matrix differs")
            require(abs(j.row0 + y0 - float(y[i])) < 1e-4
                    and abs(j.col0 + x0 - float(x[i])) < 1e-4,
                    "stamp centre does not map back to the position")
            require(np.array_equal(obs.psf.image, full.psf.image), "PSF differs")
            pc = (np.array(full.psf.image.shape) - 1)/2
            require(abs(obs.psf.jacobian.row0 - pc[0]) < 1e-6
                    and abs(obs.psf.jacobian.col0 - pc[1]) < 1e-6,
                    "PSF centre is not the centre of its image")
            off.add(int(box[i]))
    for a, b in zip(before, snap_mbobs(mbobs)):
        require(same_snap(a[0], b[0]), "the images were modified")
    if x.size:
        m = mbm.mlist[0]
        try:
            m.get_cutout(0, 0, type="sky")
        except ValueError:
            pass
        else:
            require(False, "unknown cutout type accepted")
        ids = np.asarray(cm.cat["number"])
        require(np.array_equal(ids, np.arange(x.size) + 1), "segment numbers")


CAT_DT = [
    ("number", "i4"), ("x", "f8"), ("y", "f8"), ("xmin", "i8"), ("xmax", "i8"),
    ("ymin", "i8"), ("ymax", "i8"), ("a", "f8"), ("b", "f8"), ("theta", "f8"),
    ("flux", "f8"), ("iso_radius", "f4"), ("flux_radius", "f4"),
    ("isoarea_image", "f4"), ("flux_auto", "f4"), ("kron_radius", "f4"),
]


@st.composite
def det_cases(draw):
    m = draw(mbobs_st(lo=6))
    n = draw(rare(st.integers(0, 5), st.integers(5, 40), 16))
    objs = []
    for _ in range(n):
        a = draw(fl(0.5, 8))
        objs.append({
            "x": draw(fl(0, m["nx"]-1)), "y": draw(fl(0, m["ny"]-1)),
            "w": draw(rare(st.integers(0, 60), st.integers(0, 600))),
            "h": draw(rare(st.integers(0, 60), st.integers(0, 600))),
            "a": a, "b": round(a*draw(fl(0.05, 1)), 4) or 0.1,
            "iso_radius": draw(rare(fl(0.1, 60), fl(0.1, 600))),
            "flux_radius": draw(rare(fl(0.3, 30), fl(0.3, 300)))})
    lo = draw(st.integers(2, 64))
    hi = draw(st.one_of(st.integers(lo, 300),
                        st.sampled_from([s for s in ALLOWED_BOX_SIZES
                                         if lo <= s <= 512] or [lo])))
    sx = draw(st.one_of(st.none(), st.fixed_dictionaries({
        "detect_thresh": fl(0.5, 5), "deblend_cont": fl(0, 0.1),
        "minarea": st.integers(1, 9), "filter_type": st.just("conv"),
        "filter_kernel": st.just([[0.0, 0.2, 0.0], [0.2, 0.2, 0.2],
                                  [0.0, 0.2, 0.0]])})))
    return {
        "mbobs": m, "objs": objs, "sx": sx,
        # bands without a mask plane
        "nomask": draw(rare(st.just([]), st.lists(st.integers(0, 5)), 6)),
        "nodet": draw(st.sampled_from([0, 1, 3, 2**10, 2**20 | 8, 2**30 - 1])),
        "meds": {
            "box_type": draw(st.sampled_from(["iso_radius", "sigma_size"])),
            "min_box_size": lo, "max_box_size": hi, "rad_min": draw(fl(0.5, 10)),
            "rad_fac": draw(fl(0.5, 4)), "box_padding": draw(st.integers(0, 6)),
            "sigma_fac": draw(fl(1, 8)),
        },
    }


def ref_box(o, mc):
    """smallest allowed size holding the requested one; both roundings near ties"""
    if mc["box_type"] == "iso_radius":
        rad = max(float(np.float32(o["iso_radius"])), mc["rad_min"])
        want = 2*mc["rad_fac"]*rad + mc["box_padding"]
        wants = {int(want - 1e-3), int(want), int(want + 1e-3)}
    else:
        sigma = float(np.float32(o["flux_radius"]))*2.0/2.3548200450309493
        d = sigma*mc["sigma_fac"]*(2.0 - o["b"]/o["a"])
        wants = {max(2*int(np.ceil(d + e)), o["w"] + 1, o["h"] + 1)
                 for e in (-1e-3, 0, 1e-3)}
    lo, hi = mc["min_box_size"], mc["max_box_size"]
    allowed = sorted({s for s in ALLOWED_BOX_SIZES if lo <= s <= hi} | {hi})
    out = set()
    for w in wants:
        w = min(max(w, lo), hi)
        out.add(min(s for s in allowed if s >= w))
    return out


def check_detect(case, ctx):
    mbobs = build(case["mbobs"])
    for b, ol in enumerate(mbobs):
        if b in case.get("nomask", []):
            ol[0].set_bmask(None)
    before = snap_mbobs(mbobs)
    dims = mbobs[0][0].image.shape
    cat = np.zeros(len(case["objs"]), dtype=CAT_DT)
    for i, o in enumerate(case["objs"]):
        c = cat[i]
        for n in ("x", "y", "a", "b", "iso_radius", "flux_radius"):
            c[n] = o[n]
        c["number"] = i + 1
        c["xmin"], c["ymin"] = 3, 5
        c["xmax"], c["ymax"] = 3 + o["w"], 5 + o["h"]
    seg = np.arange(dims[0]*dims[1]).reshape(dims) % 3
    calls = []

    def hook(**kw):
        calls.append(kw)
        return cat.copy(), seg.copy()

    sx = None if case["sx"] is None else dict(case["sx"])
    sxdes.HOOK = hook
    try:
        md = MEDSifier(mbobs=mbobs, sx_config=sx, meds_config=dict(case["meds"]),
                       nodet_flags=case["nodet"])
    finally:
        sxdes.HOOK = None
    require(len(calls) == 1, "extraction ran %d times", len(calls))
    c = calls[0]
    # inverse-variance weighted detection image
    w = np.array([np.median(b[0]["weight"][b[0]["weight"] > 0]) for b in before])
    im = sum(wi*b[0]["image"] for wi, b in zip(w, before))/w.sum()
    require(np.allclose(c["image"], im, rtol=1e-9, atol=1e-9*np.abs(im).max()),
            "the detection image is not the weighted mean of the bands")
    require(np.allclose(c["noise"], np.sqrt(1/w.sum()), rtol=1e-9),
            "detection noise %r, expected %r", c["noise"], np.sqrt(1/w.sum()))
    msk = np.zeros(dims, dtype=bool)
    for b in before:
        if "bmask" in b[0]:
            msk |= (b[0]["bmask"] & case["nodet"]) != 0
    got = c["mask"] if c["mask"] is not None else np.zeros(dims, dtype=bool)
    require(np.array_equal(np.asarray(got).astype(bool), msk),
            "pixels excluded from detection are not those with the given bits")
    if case["sx"] is None:
        require(c["thresh"] == sxdes.DETECT_THRESH, "default threshold not used")
        require(c["config"] is None or c["config"] == sxdes.SX_CONFIG
                or c["config"] is sxdes.SX_CONFIG, "default settings not used")
    else:
        require(sx == case["sx"], "the caller's detection settings were modified")
        require(c["thresh"] == sx["detect_thresh"], "threshold not used")
        conf = dict(c["config"])
        require(np.array_equal(conf.pop("filter_kernel"),
                               np.array(sx["filter_kernel"])), "kernel not used")
        exp = {k: v for k, v in sx.items()
               if k not in ("detect_thresh", "filter_kernel")}
        require(conf == exp, "settings %r, expected %r", conf, exp)
    require(len(md.cat) == len(cat), "detections lost")
    require(np.array_equal(md.seg, seg), "segmentation map changed")
    if len(mbobs) > 1 or msk.any():
        ctx.nontrivial()
    ctx.note(case["meds"]["box_type"], "nobj>0" if len(cat) else "nobj=0")
    sizes = set()
    for i, o in enumerate(case["objs"]):
        box = int(md.cat["box_size"][i])
        exp = ref_box(o, case["meds"])
        require(box in exp, "object %d: stamp size %d, expected %s", i, box, exp)
        sizes.add(box)
        require(md.cat["x"][i] == o["x"] and md.cat["y"][i] == o["y"],
                "detected position changed")
    if len(sizes) > 1:
        ctx.note("several sizes")
    # stamps made from the detections
    mbm = md.get_multiband_meds()
    for i, o in enumerate(case["objs"]):
        box = int(md.cat["box_size"][i])
        for b in range(len(mbobs)):
            for t in ("image", "weight", "noise", "bmask", "seg"):
                if t != "seg" and t not in before[b][0]:
                    continue
                src = seg if t == "seg" else before[b][0][t]
                yy, xx = np.float32(o["y"]), np.float32(o["x"])
                e, y0, x0, _ = expected_cut(src, yy, xx, box, FILL[t])
                require(np.array_equal(mbm.mlist[b].get_cutout(i, 0, type=t), e),
                        "object %d band %d: %s cutout differs", i, b, t)
            jd = mbm.mlist[b].get_jacobian(i, 0)
            require(abs(jd["row0"] + y0 - o["y"]) < 1e-4
                    and abs(jd["col0"] + x0 - o["x"]) < 1e-4,
                    "stamp centre does not map back to the detection")
            fj = mbobs[b][0].jacobian
            for n in ("dudrow", "dudcol", "dvdrow", "dvdcol"):
                require(abs(jd[n] - getattr(fj, n)) < 1e-12, "stamp WCS matrix differs")
            if "bmask" in before[b][0] and np.any(mbm.mlist[b].get_cutout(
                    i, 0, type="weight") > 0):
                pobs = mbm.mlist[b].get_obs(i, 0).psf
                require(np.array_equal(pobs.image, mbobs[b][0].psf.image), "PSF differs")
                pc = (np.array(pobs.image.shape) - 1)/2
                require(abs(pobs.jacobian.row0 - pc[0]) < 1e-6
                        and abs(pobs.jacobian.col0 - pc[1]) < 1e-6,
                        "PSF centre is not the centre of its image")
    for a, b in zip(before, snap_mbobs(mbobs)):
        require(same_snap(a[0], b[0]), "the images were modified")


@st.composite
def raw_cases(draw):
    """stamp corners given directly, also negative and beyond the image"""
    m = draw(mbobs_st())
    cut = []
    for _ in range(draw(st.integers(1, 5))):
        box = draw(st.one_of(st.integers(1, 12), st.sampled_from([16, 32, 48, 64])))
        cut.append([draw(st.integers(-box - 3, m["ny"] + 3)),
                    draw(st.integers(-box - 3, m["nx"] + 3)), box])
    return {"mbobs": m, "cut": cut}


def check_raw(case, ctx):
    """the stamp interface itself, for corners anywhere"""
    mbobs = build(case["mbobs"])
    before = snap_mbobs(mbobs)
    obs = mbobs[0][0]
    r = np.random.RandomState(case["mbobs"]["seed"] ^ 0x4321)
    dims = obs.image.shape
    seg = r.randint(0, 3, size=dims).astype("i4")
    n = len(case["cut"])
    cat = np.zeros(n, dtype=[
        ("id", "i8"), ("box_size", "i8"), ("ncutout", "i8"),
        ("orig_start_row", "i8", (1,)), ("orig_start_col", "i8", (1,))])
    cat["id"], cat["ncutout"] = np.arange(n), 1
    for i, (y0, x0, box) in enumerate(case["cut"]):
        cat["box_size"][i] = box
        cat["orig_start_row"][i, 0], cat["orig_start_col"][i, 0] = y0, x0
    m = MEDSInterface(obs, seg, cat)
    for i, (y0, x0, box) in enumerate(case["cut"]):
        for t in ("image", "weight", "noise", "bmask", "seg"):
            src = seg if t == "seg" else np.array(getattr(obs, t))
            exp = np.full((box, box), FILL[t], dtype=src.dtype)
            ya, yb = max(y0, 0), min(y0 + box, dims[0])
            xa, xb = max(x0, 0), min(x0 + box, dims[1])
            if ya < yb and xa < xb:
                exp[ya-y0:yb-y0, xa-x0:xb-x0] = src[ya:yb, xa:xb]
                if y0 < 0 or x0 < 0 or yb-ya < box or xb-xa < box:
                    ctx.nontrivial()
            else:
                ctx.note("off the image")
            got = m.get_cutout(i, 0, type=t)
            require(np.array_equal(got, exp),
                    "%s cutout at %r differs", t, case["cut"][i])
            if t != "seg":
                got[...] = 3
            else:
                require(np.array_equal(got, exp) and not np.shares_memory(got, seg),
                        "the segmentation cutout is not a copy")
    if m.has_psf():
        p = m.get_cutout(0, 0, type="psf")
        require(np.array_equal(p, obs.psf.image), "the PSF cutout is not the PSF")
        p[...] = -1
    for a, b in zip(before, snap_mbobs(mbobs)):
        require(same_snap(a[0], b[0]), "cutouts share memory with the images")


SUBS = [
    Sub("interface", raw_cases(), check_raw, 3000, 80000),
    Sub("stamps", stamp_cases(), check_stamps, 2000, 60000),
    Sub("detect", det_cases(), check_detect, 3000, 80000),
]
