"""P17: LSST configurations"""
import copy

from hypothesis import strategies as st

from lib.gen import fl
from lib.harness import Sub, require
from metadetect.lsst import defaults, util
from metadetect.lsst.configs import get_config
from metadetect.lsst.measure import DetectAndDeblendConfig, get_detect_and_deblend_task
from metadetect.lsst.metadetect import MetadetectConfig
from metadetect.lsst.skysub import IterateDetectionSkySubConfig, SubtractSkyMbExpConfig

PROPERTY = "P17"
RULE = (
    "histories of 1-6 configuration requests with any subset of keys, valid or not, and "
    "edits of returned configurations in between; overrides of any subset of the fields "
    "of the five task configurations, with an unknown field or a value of the wrong type "
    "now and then; non-trivial: a merged sub-configuration or a nested override; distinct "
    "by full case"
)

DEFAULTS = {
    "subtract_sky": False, "deblender": "sdss", "detect": {"thresh": 5.0},
    "metacal": {"reconv_type": "fitgauss"}, "pgauss": {"fwhm": 2.0}, "stamp_size": 49,
    "shear_bands": None,
}


def opt(d):
    """subset of the keys"""
    return st.fixed_dictionaries({}, optional=d)


full = opt({
    "subtract_sky": st.booleans(), "deblender": st.sampled_from(["sdss", "scarlet"]),
    "detect": opt({"thresh": fl(1, 20)}),
    "metacal": opt({"reconv_type": st.sampled_from(["gauss", "fitgauss"]),
                    "types": st.lists(st.sampled_from(["noshear", "1p", "2m"]))}),
    "pgauss": opt({"fwhm": fl(0.5, 4)}), "stamp_size": st.integers(8, 100),
    "shear_bands": st.sampled_from([None, ["r"], ["r", "i"]]),
})

bad = st.sampled_from([
    None, None, None, None, ("", "stamp_sizes", 3), ("", "meas_type", "wmom"),
    ("detect", "threshold", 3.0), ("detect", "thresholdValue", 3.0),
    ("pgauss", "fwhm_reg", 0.1), ("pgauss", "FWHM", 2.0),
])

step = st.fixed_dictionaries({
    "conf": st.one_of(st.none(), full), "bad": bad,
    "edit": st.sampled_from([None, None, "detect", "metacal", "pgauss", "top", "types"]),
})


def check_history(steps, ctx):
    dflt = copy.deepcopy(defaults.DEFAULT_MDET_CONFIG)
    require(dflt == DEFAULTS, "the defaults are %s", dflt)
    for s in steps:
        conf = copy.deepcopy(s["conf"])
        exp = copy.deepcopy(DEFAULTS)
        for k, v in (conf or {}).items():
            if k in ("detect", "metacal", "pgauss"):
                exp[k].update(v)
                if v:
                    ctx.nontrivial()
            else:
                exp[k] = v
        if s["bad"] is not None:
            sub, key, val = s["bad"]
            conf = conf or {}
            (conf if sub == "" else conf.setdefault(sub, {}))[key] = val
        given = copy.deepcopy(conf)
        try:
            got = get_config(conf)
        except ValueError:
            require(s["bad"] is not None, "a legal configuration was refused")
            ctx.note("refused")
            got = None
        require(conf == given, "the caller's configuration was modified")
        require(defaults.DEFAULT_MDET_CONFIG == DEFAULTS, "the defaults were modified")
        if got is None:
            continue
        require(s["bad"] is None, "an unknown key %s was accepted", s["bad"])
        require(got == exp, "got %s, expected %s", got, exp)
        e = s["edit"]
        if e == "top":
            got["stamp_size"] = -1
            got["shear_bands"] = ["x"]
        elif e == "types":
            got["metacal"].setdefault("types", []).append("zz")
        elif e:
            got[e]["thresh"] = got[e]["fwhm"] = -1
        require(defaults.DEFAULT_MDET_CONFIG == DEFAULTS,
                "editing a returned configuration changes the defaults")
    require(get_config() == DEFAULTS == get_config({}), "later calls see earlier ones")
    require(defaults.DEFAULT_DETECT_CONFIG == {"thresh": 5.0}
            and defaults.DEFAULT_METACAL_CONFIG == {"reconv_type": "fitgauss"}
            and defaults.DEFAULT_PGAUSS_CONFIG == {"fwhm": 2.0}, "defaults modified")


det = {
    "thresholdValue": fl(1, 30), "minPixels": st.integers(1, 9),
    "nSigmaToGrow": fl(1, 4), "reEstimateBackground": st.booleans(),
    "includeThresholdMultiplier": fl(1, 3),
    "statsMask": st.lists(st.sampled_from(["BAD", "EDGE", "SAT"]), unique=True),
}
back = {"binSize": st.integers(8, 200),
        "ignoredPixelMask": st.lists(st.sampled_from(["BAD", "EDGE"]), unique=True)}
it = {"niter": st.integers(1, 4), "detect": opt(det), "back": opt(back)}
TREES = {
    "mdet": (MetadetectConfig, {
        "subtract_sky": st.booleans(), "pgauss": opt({"fwhm": fl(0.5, 4)}),
        "detect": opt(det), "deblender": st.sampled_from(["sdss", "scarlet"]),
        "metacal": opt({
            "types": st.lists(st.sampled_from(["noshear", "1p", "1m", "2p", "2m"]),
                              min_size=1, unique=True),
            "reconv_type": st.sampled_from(["gauss", "fitgauss"])}),
        "stamp_size": st.integers(8, 100),
        "shear_bands": st.lists(st.sampled_from("ugrizy"), min_size=1, unique=True)}),
    "db": (DetectAndDeblendConfig, {
        "seed": st.integers(0, 99), "detect": opt(det),
        "deblend": opt({"maxFootprintArea": st.integers(0, 99)}),
        "meas": opt({"slots": opt({"shape": st.sampled_from([None, "x"])}),
                     "noiseReplacer": opt({"noiseOffset": fl(0, 2)})})}),
    "iter": (IterateDetectionSkySubConfig, it),
    "sky": (SubtractSkyMbExpConfig, {"iterate_detection_and_skysub": opt(it)}),
}


@st.composite
def override_case(draw):
    name = draw(st.sampled_from(sorted(TREES)))
    over = draw(opt(TREES[name][1]))
    if name in ("mdet", "db") and draw(st.booleans()):
        d = over.setdefault("detect", {})
        d.pop("thresholdValue", None)
        d["thresh"] = draw(fl(1, 30))
    return {"which": name, "over": over,
            "bad": draw(st.sampled_from([None, None, None, "key", "nested", "type"]))}


def flat(d, pre=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(flat(v, pre + (k,)))
        else:
            out[pre + (k,)] = v
    return out


def check_override(c, ctx):
    cls = TREES[c["which"]][0]
    conf = cls()
    conf.setDefaults()
    before = flat(conf.toDict())
    other = cls()
    other.setDefaults()
    over = copy.deepcopy(c["over"])
    if c["bad"] == "key":
        over["no_such_field"] = 1
    elif c["bad"] == "nested":
        k = "iterate_detection_and_skysub" if c["which"] == "sky" else "detect"
        over.setdefault(k, {})["no_such_field"] = 1
    elif c["bad"] == "type":
        d = over
        if c["which"] == "sky":
            d = over.setdefault("iterate_detection_and_skysub", {})
        d.setdefault("detect", {})["thresholdValue"] = "high"
    given = copy.deepcopy(over)
    try:
        util.override_config(conf, over)
    except (AttributeError, ValueError):
        require(c["bad"] is not None, "a legal override %s was refused", over)
        ctx.note("refused " + c["bad"])
        return
    require(c["bad"] is None, "a bad override was accepted: %s", over)
    require(over == given, "the overrides were modified")
    after = flat(conf.toDict())
    # thresh is another name of thresholdValue
    fo = {k if k[-1] != "thresh" else k[:-1] + ("thresholdValue",): v
          for k, v in flat(c["over"]).items() if v != {}}
    if any(len(k) > 1 for k in fo):
        ctx.nontrivial()
    exp = dict(before)
    exp.update(fo)
    require(after == exp, "after the override: %s, expected %s",
            {k: v for k, v in after.items() if exp.get(k, "?") != v},
            {k: v for k, v in exp.items() if after.get(k, "?") != v})
    for k, v in fo.items():
        o = conf
        for n in k:
            o = getattr(o, n)
        require((list(o) if isinstance(v, list) else o) == v,
                "field %s is %s after setting %s", k, o, v)
    require(flat(other.toDict()) == before, "another configuration changed")


def good(conf, over):
    for k, v in flat(over).items():
        if v == {}:
            continue
        o = conf
        for n in k:
            o = getattr(o, n)
        if (list(o) if isinstance(v, list) else o) != v:
            return k
    return None


dbcase = st.fixed_dictionaries({
    "over": st.one_of(st.none(), opt(TREES["db"][1])),
    "thresh": st.one_of(st.none(), fl(1, 20)),
    "deblender": st.sampled_from(["sdss", "scarlet"]),
})


def check_task(c, ctx):
    over = copy.deepcopy(c["over"])
    kw = {} if c["over"] is None else {"config": over}
    if c["thresh"] is not None:
        kw["thresh"] = c["thresh"]
    task = get_detect_and_deblend_task(deblender=c["deblender"], **kw)
    require(over == c["over"], "the caller's configuration was modified")
    if c["over"]:
        ctx.nontrivial()
    exp = copy.deepcopy(c["over"] or {})
    exp.setdefault("detect", {})["thresholdValue"] = c["thresh"] or 5.0
    k = good(task.config, exp)
    require(k is None, "field %s does not have its value", k)
    k = good(task, {"detect": {"config": {"thresholdValue": c["thresh"] or 5.0}}})
    require(k is None, "the detection task does not have the threshold")
    d = task.config.detect
    if "statsMask" not in exp["detect"]:
        require({"BAD", "EDGE", "DETECTED", "NO_DATA", "BRIGHT"} <= set(d.statsMask),
                "statistics mask %s", d.statsMask)
    require(set(d.excludeMaskPlanes) == {"EDGE", "NO_DATA", "BRIGHT"},
            "detection mask %s", d.excludeMaskPlanes)
    require(d.reEstimateBackground == exp["detect"].get("reEstimateBackground", False),
            "the background is re-estimated in detection")
    require(type(task.deblend).__name__ == {
        "sdss": "SourceDeblendTask", "scarlet": "ScarletDeblendTask"}[c["deblender"]],
        "deblender is %s", type(task.deblend))


SUBS = [
    Sub("history", st.lists(step, min_size=1, max_size=6), check_history, 1500, 40000),
    Sub("override", override_case(), check_override, 1500, 40000),
    Sub("task", dbcase, check_task, 400, 8000),
]
