"""P12: combining the measurements of several fitters in one table"""
import numpy as np
from hypothesis import strategies as st

from lib.gen import rare, seeds
from lib.harness import Sub, require
from metadetect.fitting import combine_fit_res, get_wavg_output_struct
from metadetect import procflags as pf

PROPERTY = "P12"
RULE = (
    "1-5 tables of 0-6 rows (or None) with distinct column prefixes, 1-4 bands, "
    "matching or differing lengths and shear-band labels; now and then "
    "several times larger, more or brighter; non-trivial: at least two "
    "non-empty tables; distinct by full case"
)


@st.composite
def cases(draw):
    n = draw(rare(st.integers(1, 5), st.integers(5, 12)))
    nobj = draw(rare(st.sampled_from([0, 1, 2, 6]), st.integers(0, 300)))
    tabs = []
    for i in range(n):
        tabs.append({
            "none": draw(st.integers(0, 2 if nobj == 0 else 12)) == 0,
            "nobj": nobj if draw(st.integers(0, 14)) else nobj + 1,
            "sbdiff": draw(st.integers(0, 14)) == 0, "seed": draw(seeds)})
    nb = draw(rare(st.integers(1, 4), st.integers(5, 6)))
    return {"tabs": tabs, "nband": nb,
            "shear_bands": draw(st.permutations(range(nb)))[:draw(st.integers(1, nb))]}


def build(c):
    out = []
    for i, t in enumerate(c["tabs"]):
        if t["none"]:
            out.append(None)
            continue
        r = np.random.RandomState(t["seed"])
        row = get_wavg_output_struct(c["nband"], "f%d" % i,
                                     shear_bands=c["shear_bands"])
        a = np.zeros(t["nobj"], dtype=row.dtype)
        for n in a.dtype.names:
            if n == "shear_bands":
                a[n] = row[n][0]
                if t["sbdiff"] and a.size:
                    a[n][r.randint(a.size)] = "9"
            elif "flags" in n:
                a[n] = r.randint(0, 2**30, size=a[n].shape)
            else:
                a[n] = r.normal(size=a[n].shape)
                if a.size and r.uniform() < 0.2:
                    a[n][0] = np.nan
        out.append(a)
    return out


def check(c, ctx):
    # the defaults a table starts from
    row = get_wavg_output_struct(c["nband"], "f", shear_bands=c["shear_bands"])
    require(row.shape == (1,), "one row")
    for n in row.dtype.names:
        if n == "shear_bands":
            require(str(row[n][0]) == "".join(map(str, sorted(c["shear_bands"]))),
                    "shear_bands label %r", row[n][0])
        elif "flags" in n:
            require(np.all(row[n] == pf.NO_ATTEMPT), "%s starts as %s", n, row[n])
        else:
            require(np.all(np.isnan(row[n])), "%s starts as %s", n, row[n])
        if "band_flux" in n:
            require(row[n].size == c["nband"], "%s has %d entries", n, row[n].size)

    tabs = build(c)
    copies = [None if t is None else t.copy() for t in tabs]
    real = [t for t in tabs if t is not None]
    sizes = {0 if t is None else t.size for t in tabs}
    bad = len(tabs) > 1 and (
        len(sizes) > 1
        or (real and real[0].size > 0 and any(
            not np.array_equal(t["shear_bands"], real[0]["shear_bands"])
            for t in real)))
    if len(real) > 1 and sizes != {0}:
        ctx.nontrivial()
    try:
        res = combine_fit_res(list(tabs))
    except RuntimeError:
        require(bad, "consistent tables were refused")
        ctx.note("refused")
        return
    require(not bad, "inconsistent tables (sizes %s) were combined", sorted(sizes))
    for t, u in zip(tabs, copies):
        require(t is None or t.tobytes() == u.tobytes(), "a table was modified")
    if not real:
        require(res is None, "nothing to combine must give None")
        ctx.note("none")
        return
    require(res is not None and res.size == real[0].size, "rows lost")
    names = []
    for t in real:
        names += [n for n in t.dtype.names if n not in names]
    require(sorted(res.dtype.names) == sorted(names),
            "columns %s, expected %s", res.dtype.names, names)
    for t in real:
        for n in t.dtype.names:
            require(res.dtype[n] == t.dtype[n] and res[n].tobytes() == t[n].tobytes(),
                    "column %s changed", n)
    ctx.note("combined", "empty" if res.size == 0 else "rows")


SUBS = [Sub("combine", cases(), check, 12000, 200000)]
