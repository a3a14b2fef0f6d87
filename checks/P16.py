"""P16: status flags combine without collision and decode to their meaning"""
import numpy as np
from hypothesis import strategies as st

import ngmix.flags
from lib.harness import Sub, require
from metadetect import procflags

PROPERTY = "P16"
RULE = (
    "any subset of the status flags of metadetect and ngmix and of undefined bits, as "
    "python or numpy integers; non-trivial: at least two bits; distinct by value"
)

NAMES = ("SHEAR_RANGE_ERROR", "EDGE_HIT", "PSF_FAILURE", "OBJ_FAILURE",
         "NOMOMENTS_FAILURE", "BAD_BBOX", "ZERO_WEIGHTS", "NO_DATA", "MISSING_BAND",
         "INCONSISTENT_BANDS", "CENTROID_FAILURE", "DEBLEND_FAILURE")
# words that identify each meaning
WORDS = {
    "SHEAR_RANGE_ERROR": ["shear", "range"], "EDGE_HIT": ["edge"],
    "PSF_FAILURE": ["psf", "fail"], "OBJ_FAILURE": ["object", "fail"],
    "NOMOMENTS_FAILURE": ["no moments"], "BAD_BBOX": ["bounding box"],
    "ZERO_WEIGHTS": ["weight", "zero"], "NO_DATA": ["no data"],
    "MISSING_BAND": ["missing", "band"], "INCONSISTENT_BANDS": ["bands", "psf"],
    "CENTROID_FAILURE": ["centroid"], "DEBLEND_FAILURE": ["deblend"],
}

cases = st.fixed_dictionaries({
    "bits": st.lists(st.integers(0, 30), max_size=12, unique=True),
    "np": st.sampled_from([None, "i4", "i8"]),
})


def check(c, ctx):
    flags = {n: getattr(procflags, n) for n in NAMES}
    for n, v in flags.items():
        require(v > 0 and v & (v - 1) == 0, "%s is not a single bit", n)
        require(2**19 <= v < 2**31, "%s is outside of the reserved bits", n)
        require(v not in ngmix.flags.NAME_MAP, "%s collides with an ngmix flag", n)
    require(len(set(flags.values())) == len(NAMES), "two flags share a bit")
    require(procflags.NO_ATTEMPT == ngmix.flags.NO_ATTEMPT
            and not any(v & procflags.NO_ATTEMPT for v in flags.values()),
            "the no-attempt flag is not that of ngmix")
    val = sum(2**b for b in c["bits"])
    if c["np"]:
        val = np.dtype(c["np"]).type(val)
    if len(c["bits"]) > 1:
        ctx.nontrivial()
    s = procflags.get_procflags_str(val)
    require(isinstance(s, str), "not a string")
    parts = s.split("|") if s else []
    require(len(parts) == len(c["bits"]), "%d: %d descriptions for %d bits", val,
            len(parts), len(c["bits"]))
    byval = {v: n for n, v in flags.items()}
    for b, p in zip(sorted(c["bits"]), parts):
        p = p.strip()
        v = 2**b
        if v in byval:
            require(all(w in p.lower() for w in WORDS[byval[v]]),
                    "%s is described as %r", byval[v], p)
            require(procflags.NAME_MAP[p] == v and procflags.NAME_MAP[v] == p,
                    "%r does not map back to its flag", p)
        elif v in ngmix.flags.NAME_MAP:
            require(p == ngmix.flags.NAME_MAP[v], "ngmix flag %d is described as %r", v, p)
        else:
            require(all(w != p for w in procflags.NAME_MAP.values()),
                    "undefined bit %d is described as %r", b, p)


SUBS = [Sub("decode", cases, check, 2000, 40000)]
