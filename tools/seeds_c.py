exec(open(os.path.join(here, "tools", "seeds_b.py")).read().split("seed(\"p13-last")[0])

EPRE = PRE + '''
from lib import e2e as E
from metadetect.metadetect import do_metadetect


def scene(nband=2, **kw):
    n = 4
    c = {"nband": nband, "grid": [2, 2], "seed": 77, "pad": [0, 5],
         "jit": [[1.3, -0.6], [0.4, 2.1], [-1.7, 0.3], [0.8, -2.2]],
         "T": [0.5, 0.6, 0.4, 0.7], "e": [0.0, 0.0], "g": [0.02, -0.01],
         "jac": {"scale": 0.25, "rot": 0.4, "flip": False, "diag": False, "s1": 0.0,
                 "s2": 0.0, "off": [3.0, -4.0]},
         "psfT": 0.3, "psfg": [[0.0, 0.0]]*nband, "sn": [8000.0]*nband, "lev": [0.0]*nband,
         "fitters": [{"model": "wmom", "weight": {"fwhm": 1.2}}], "step": None,
         "psf": "gauss", "noise": True, "mfrac": False, "bits": False}
    c.update(kw)
    return c


def go(c, conf=None, mb=None, **kw):
    return do_metadetect(conf or E.config(c), E.build(c) if mb is None else mb,
                         np.random.RandomState(4), **kw)


def shear(c, res, kind="wmom"):
    "recovered over true shear"
    pos = E.positions(c)
    m = {}
    for t, v in res.items():
        i = [np.argmin(np.hypot(v["sx_row_noshear"] - p[0], v["sx_col_noshear"] - p[1]))
             for p in pos]
        m[t] = v[kind + "_g"][i].mean(axis=0)
    step = c["step"] or 0.01
    R = np.array([m["1p"][0] - m["1m"][0], m["2p"][1] - m["2m"][1]])/2/step
    return m["noshear"]/R, R

'''

seed("p31-wcs-transposed", "P31", [("metadetect/detect.py",
 """        cat = np.zeros(self.x.shape[0], dtype=new_dt)
        if number is None:
            cat['id'] = np.arange(cat.size)
            cat['number'] = cat['id'] + 1
        else:
            cat['id'] = number - 1
            cat["number"] = number
        cat['ncutout'] = 1

        jacob = self.mbobs[0][0].jacobian
        cat['dudrow'][:, 0] = jacob.dudrow
        cat['dudcol'][:, 0] = jacob.dudcol
        cat['dvdrow'][:, 0] = jacob.dvdrow
        cat['dvdcol'][:, 0] = jacob.dvdcol
""",
 """        cat = np.zeros(self.x.shape[0], dtype=new_dt)
        if number is None:
            cat['id'] = np.arange(cat.size)
            cat['number'] = cat['id'] + 1
        else:
            cat['id'] = number - 1
            cat["number"] = number
        cat['ncutout'] = 1

        jacob = self.mbobs[0][0].jacobian
        cat['dudrow'][:, 0] = jacob.dvdcol
        cat['dudcol'][:, 0] = jacob.dudcol
        cat['dvdrow'][:, 0] = jacob.dvdrow
        cat['dvdcol'][:, 0] = jacob.dudrow
""")],
 "a WCS that is not symmetric (rotated)", "shapes are measured in rotated coordinates",
 EPRE + '''
c = scene()
g, R = shear(c, go(c))
assert np.all(np.abs(g - c["g"]) < 1e-3), (g, R)
''')

seed("p31-whole-pixel-stamps", "P31", [("metadetect/detect.py",
 """            cat['number'] = cat['id'] + 1
        else:
            cat['id'] = number - 1
            cat["number"] = number
        cat['ncutout'] = 1
""",
 """            cat['number'] = cat['id'] + 1
        else:
            cat['id'] = number - 1
            cat["number"] = number
        cat['ncutout'] = 1
        self.x = np.floor(self.x)
        self.y = np.floor(self.y)
""")],
 "objects that are not centred on a pixel",
 "the centre of the weight function is at the corner of the pixel, so that shapes are "
 "biased",
 EPRE + '''
c = scene(jit=[[0.9, 0.9], [0.8, 0.9], [0.85, 0.9], [0.8, 0.8]], pad=[0, 0],
          jac=dict(scale=0.25, rot=0.0, flip=False, diag=True, s1=0, s2=0, off=[0, 0]))
g, R = shear(c, go(c))
assert np.all(np.abs(g - c["g"]) < 1e-3), (g, R)
''')

seed("p31-half-step", "P31", [("metadetect/shearpos.py",
 """    ainv = np.linalg.inv(shear.getMatrix())
""",
 """    ainv = np.linalg.inv(shear.getMatrix())
    if jac.get_det() < 0:
        ainv = ainv * np.array([[1, -1], [-1, 1]])
""")],
 "a WCS with flipped parity and a shear of the second component",
 "positions are unsheared to the wrong side",
 EPRE + '''
c = scene(jac=dict(scale=0.25, rot=0.2, flip=True, diag=False, s1=0, s2=0, off=[0, 0]),
          step=0.02)
res = go(c)
for v in res.values():
    for p in E.positions(c):
        d = np.hypot(v["sx_row_noshear"] - p[0], v["sx_col_noshear"] - p[1])
        assert d.min() < 0.2, (p, d.min())
''')

seed("p32-allclose", "P32", [("metadetect/metadetect.py",
 "                if np.all(obs.weight == 0):",
 "                if np.allclose(obs.weight, 0):")],
 "images in units such that the weights are below 1e-8",
 "images in small units are taken as having no weight",
 EPRE + '''
c = scene()
mb = E.build(c)
for ol in mb:
    with ol[0].writeable():
        ol[0].image *= 2.0**20
        ol[0].noise *= 2.0**20
        ol[0].weight /= 2.0**40
a, b = go(c), go(c, mb=mb)
assert b is not None
assert np.allclose(a["1p"]["wmom_g"], b["1p"]["wmom_g"])
''')

seed("p32-sx-state", "P32", [("metadetect/detect.py",
 """            sx_config = {}
            sx_config.update(sx_config_in)
""",
 """            sx_config = sxdes.SX_CONFIG
            sx_config.update(sx_config_in)
""")],
 "a run after one with detection settings that this one leaves at their defaults",
 "detection settings leak from one run into later ones",
 EPRE + '''
c = scene(sn=[40.0, 40.0])
conf = E.config(c)
other = copy.deepcopy(conf)
other["sx"]["clean"] = False
other["sx"]["deblend_nthresh"] = 1
other["sx"]["detect_thresh"] = 100.0
seen = []
import sxdes
old = sxdes.run_sep


def spy(*args, config, **kw):
    seen.append(dict(config))
    return old(*args, config=config, **kw)


sxdes.run_sep = spy
go(c, conf)
n = len(seen)
go(c, other)
seen[:] = seen[:n]
go(c, conf)
for x, y in zip(seen[:n], seen[n:]):
    assert sorted(x) == sorted(y), (x, y)
    for k in x:
        assert np.array_equal(x[k], y[k]), k
''')

seed("p32-shear-cache", "P32", [("metadetect/shearpos.py",
 """    shear = get_galsim_shear(shear_str, step)

    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())
""",
 """    if shear_str not in _INVERSES:
        shear = get_galsim_shear(shear_str, step)
        _INVERSES[shear_str] = np.linalg.inv(shear.getMatrix())

    ainv = _INVERSES[shear_str]
"""), ("metadetect/shearpos.py", "def unshear_positions_obs(", """_INVERSES = {}


def unshear_positions_obs(""")],
 "two runs with different steps in one process",
 "the second run unshears positions with the step of the first", EPRE + '''
c = scene()
a = go(c)
d = scene(step=0.05)
go(d)
b = go(c)
for t in a:
    assert np.array_equal(a[t]["sx_row_noshear"], b[t]["sx_row_noshear"])
e = go(d)
for p in E.positions(d):
    v = e["1p"]
    assert np.hypot(v["sx_row_noshear"] - p[0], v["sx_col_noshear"] - p[1]).min() < 0.3
''')

seed("p32-symmetrize-in-place", "P32", [("metadetect/fitting.py",
 """    sym_obs = obs.copy()
    if np.any(obs.weight <= 0):
        new_wgt = obs.weight.copy()
""",
 """    sym_obs = obs
    if np.any(obs.weight <= 0):
        new_wgt = obs.weight.copy()
""")],
 "two fitters, the first one with symmetrized weights and the second one without, and "
 "zero weights in a stamp",
 "a fitter sees the weights that were symmetrized for another one", EPRE + '''
c = scene(fitters=[{"model": "wmom", "weight": {"fwhm": 1.2}},
                   {"model": "pgauss", "weight": {"fwhm": 2.0}, "symmetrize": False}])


def obs():
    mb = E.build(c)
    r = np.random.RandomState(3)
    for ol in mb:
        with ol[0].writeable():
            for p in E.positions(c):
                ol[0].weight[int(p[0]) + 3:int(p[0]) + 6, int(p[1]) - 3:int(p[1])] = 0
    return mb


a = go(c, mb=obs())
d = dict(c, fitters=c["fitters"][1:])
b = go(d, mb=obs())
for col in ("pgauss_g", "pgauss_T", "pgauss_band_flux"):
    assert np.allclose(a["noshear"][col], b["noshear"][col], rtol=1e-6), col
''')

seed("p32-flags-first-band", "P32", [("metadetect/detect.py",
 """            if obs.has_bmask():
                mask |= (obs.bmask & self.nodet_flags != 0)
""",
 """            if obs.has_bmask() and not np.any(mask):
                mask |= (obs.bmask & self.nodet_flags != 0)
""")],
 "two or more bands with masked pixels for detection",
 "only the first band with such pixels counts", EPRE + '''
c = scene()
mb = E.build(c)
P = E.positions(c)
for b, p in enumerate(P[:2]):
    o = mb[b][0]
    with o.writeable():
        o.bmask[int(p[0]) - 12:int(p[0]) + 13, int(p[1]) - 12:int(p[1]) + 13] = 16
conf = E.config(c)
conf["nodet_flags"] = 16
v = go(c, conf, mb)["noshear"]
for k, p in enumerate(P):
    d = np.hypot(v["sx_row"] - p[0], v["sx_col"] - p[1]).min()
    assert (d < 5) == (k >= 2), (k, d)
''')
