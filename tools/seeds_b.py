PRE = '''
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import copy
import numpy as np
import ngmix
'''
LPRE = PRE + '''
from lib import lsstworld as L
from metadetect.lsst import util
import lsst.afw.image as afw_image
import lsst.geom as geom


def world(nband=2, ny=40, nx=44, seed=5, var="const", mask=0.0, psf=None, lev=None,
          x0=100, y0=50, rot=0.3, flip=False, scale=0.2, dim=15, T=0.3):
    g = {"ny": ny, "nx": nx, "x0": x0, "y0": y0, "scale": scale, "rot": rot, "flip": flip,
         "ra": 20.0, "dec": -30.0, "ox": 3.0, "oy": -2.0}
    return {"g": g, "bands": list("griz")[:nband], "seed": seed, "mask": mask,
            "psf": psf or [{"dim": dim, "T": T, "e1": 0.05, "e2": -0.03, "grad": 0.0,
                            "noclone": False, "norm": 1.0} for _ in range(nband)],
            "lev": lev or [1.0]*nband, "var": var, "double": False}


def source(cat, pixels, peaks, cen=None, coord=None, parent=0, nchild=0):
    s = cat.addNew()
    s.setFootprint(L.footprint(pixels, peaks))
    s.set("deblend_nChild", nchild) if "deblend_nChild" in s.getSchema() else None
    return s

'''
RPRE = LPRE + '''
from lib import lsstrun as R


def scene(src, nband=2, **kw):
    w = world(nband, ny=kw.pop("ny", 76), nx=kw.pop("nx", 80), dim=31, T=5.0, lev=kw.pop(
        "lev", [1.0, 4.0, 2.0][:nband]), rot=kw.pop("rot", 0.3), flip=kw.pop("flip", False))
    c = {"world": w, "src": src, "seed": 3, "stamp": 23, "thresh": None, "fwhm": None,
         "deblender": "sdss", "shear": None, "mfrac": None, "ormask": False, "bits": False,
         "sky": "no"}
    c.update(kw)
    return R.Scene(c)


def src(x, y, sn=(600, 500, 700), T=5.0, e1=0.1, e2=-0.1):
    return {"x": x, "y": y, "fx": 0.1, "fy": -0.2, "T": T, "e1": e1, "e2": e2,
            "sn": list(sn)}

'''
DPRE = PRE + '''
import sxdes
import ngmix.metacal.metacal as mc
import metadetect.metadetect as M

JAC = dict(scale=0.25, row=0, col=0)


def mbobs(nband=2, ny=40, nx=48, seed=2, psfT=None, mfrac=None, wt=None):
    r = np.random.RandomState(seed)
    mb = ngmix.MultiBandObsList()
    y, x = np.mgrid[:ny, :nx].astype(float)
    p, q = np.mgrid[:27, :27] - 13.0
    for b in range(nband):
        jac = ngmix.DiagonalJacobian(row=(ny-1)/2, col=(nx-1)/2, scale=0.25)
        pj = ngmix.DiagonalJacobian(row=13, col=13, scale=0.25)
        T = (psfT or [0.4]*nband)[b]
        pim = np.exp(-(p**2 + q**2)*0.25**2/T)
        w = (wt or [1.0]*nband)[b]
        im = r.normal(size=(ny, nx))/np.sqrt(w)
        kw = {}
        if mfrac is not None:
            kw["mfrac"] = mfrac[b]
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation(
            im, weight=np.full((ny, nx), w), jacobian=jac, bmask=np.zeros((ny, nx), "i4"),
            ormask=np.zeros((ny, nx), "i4"), noise=r.normal(size=(ny, nx)),
            psf=ngmix.Observation(pim/pim.sum(), weight=np.full(pim.shape, 1e6),
                                  jacobian=pj), **kw))
        mb.append(ol)
    return mb


def blob(mb, y0, x0, flux, bands=None):
    for b, ol in enumerate(mb):
        if bands is None or b in bands:
            o = ol[0]
            y, x = np.mgrid[:o.image.shape[0], :o.image.shape[1]].astype(float)
            g = np.exp(-((y - y0)**2 + (x - x0)**2)/2/2.5**2)
            with o.writeable():
                o.image += flux*g


CONF = {"metacal": {"psf": "fitgauss", "types": ["noshear", "1p", "1m"]},
        "model": "wmom", "weight": {"fwhm": 1.2},
        "meds": {"min_box_size": 24, "max_box_size": 24, "box_type": "iso_radius",
                 "rad_min": 4, "rad_fac": 2, "box_padding": 2},
        "sx": {"detect_thresh": 0.8, "minarea": 4,
               "filter_kernel": [[0.0, 0.2, 0.0], [0.2, 0.2, 0.2], [0.0, 0.2, 0.0]]}}


def conf(**kw):
    c = copy.deepcopy(CONF)
    c.update(kw)
    return c


def same_mcal(obs, types=None, **kw):
    "metacal that shears nothing"
    return {t: copy.deepcopy(obs) for t in types or ["noshear", "1p", "1m"]}


CATDT = [("number", "i4"), ("x", "f8"), ("y", "f8"), ("xmin", "i8"), ("xmax", "i8"),
         ("ymin", "i8"), ("ymax", "i8"), ("a", "f8"), ("b", "f8"), ("theta", "f8"),
         ("flux", "f8"), ("iso_radius", "f4"), ("flux_radius", "f4"),
         ("isoarea_image", "f4"), ("flux_auto", "f4"), ("kron_radius", "f4")]


def found(*xy):
    "detection that finds these"
    def hook(image=None, **kw):
        cat = np.zeros(len(xy), dtype=CATDT)
        seg = np.zeros(image.shape, "i4")
        for i, (x, y) in enumerate(xy):
            cat["number"][i] = i + 1
            cat["x"][i], cat["y"][i] = x, y
            cat["iso_radius"][i] = 3
            cat["a"][i] = cat["b"][i] = 2
        return cat, seg
    return hook

'''

seed("p13-last-band-masked", "P13", [("metadetect/metadetect.py",
 """                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    any_all_masked = True""",
 """                any_all_masked = np.all((obs.bmask & self['nodet_flags']) != 0)""")],
 "a band, not the last one, that is masked everywhere",
 "the run goes on although a band has no usable pixel", DPRE + '''
mb = mbobs(3)
blob(mb, 20, 24, 80)
with mb[1][0].writeable():
    mb[1][0].bmask[:] = 4
mc.HOOK = same_mcal
sxdes.HOOK = found((24.0, 20.0))
res = M.do_metadetect(conf(nodet_flags=4), mb, np.random.RandomState(1))
assert res is None, res
''')

seed("p13-det-bands-first", "P13", [("metadetect/metadetect.py",
 """        for band in det_bands:
            det_mbobs.append(mbobs[band])""",
 """        for band in range(len(det_bands)):
            det_mbobs.append(mbobs[band])""")],
 "detection bands that are not the first ones",
 "detection runs on the first bands instead of the requested ones", DPRE + '''
mb = mbobs(3)
mc.HOOK = same_mcal
got = []


def hook(image=None, **kw):
    got.append(image.copy())
    return found((24.0, 20.0))(image=image)


sxdes.HOOK = hook
M.do_metadetect(conf(), mb, np.random.RandomState(1), shear_band_combs=[[0, 1]],
                det_band_combs=[[2]])
assert np.allclose(got[0], mb[2][0].image), "not detected on band 2"
''')

seed("p13-no-detection-stops", "P13", [("metadetect/metadetect.py",
 """                    if v is None:
                        continue
                    if k not in all_res:""",
 """                    if v is None:
                        break
                    if k not in all_res:""")],
 "a shear type without detections which is not the last one",
 "the results of the types after one without detections are lost", DPRE + '''
mb = mbobs(2)
blob(mb, 20, 24, 80)


def mcal(obs, types=None, **kw):
    r = {t: copy.deepcopy(obs) for t in types}
    for ol in r["1p"]:
        with ol[0].writeable():
            ol[0].image[:] = -1
    return r


mc.HOOK = mcal
sxdes.HOOK = lambda image=None, **kw: found(*([(24.0, 20.0)] if image.max() > 0 else []))(
    image=image)
res = M.do_metadetect(conf(), mb, np.random.RandomState(1))
assert res["1p"] is None and len(res["noshear"]) == 1
assert res["1m"] is not None and len(res["1m"]) == 1
''')

seed("p14-cache-by-number", "P14", [("metadetect/metadetect.py",
 "        sbkey = tuple(sorted(shear_bands))",
 "        sbkey = len(shear_bands)")],
 "several combinations of equally many shear bands with different masks or PSFs",
 "masks, masked fraction and PSF of the second combination are those of the first",
 DPRE + '''
mb = mbobs(2, psfT=[0.3, 0.6])
blob(mb, 20, 24, 80)
mc.HOOK = same_mcal
sxdes.HOOK = found((24.0, 20.0))
res = M.do_metadetect(conf(), mb, np.random.RandomState(1), shear_band_combs=[[0], [1]])
T = res["noshear"]["psfrec_T"]
assert abs(T[0]/0.3 - 1) < 0.2 and abs(T[1]/0.6 - 1) < 0.2, T
''')

seed("p14-region-columns", "P14", [("metadetect/metadetect.py",
 """            uc = int(min(
                dims[1]-1,""",
 """            uc = int(min(
                dims[0]-1,""")],
 "an image wider than high, an object on the right and a mask region",
 "mask bits to the right of the height of the image are missed", DPRE + '''
mb = mbobs(1, ny=32, nx=56)
blob(mb, 16, 44, 80)
with mb[0][0].writeable():
    mb[0][0].bmask[16, 46] = 8
mc.HOOK = same_mcal
sxdes.HOOK = found((44.0, 16.0))
res = M.do_metadetect(conf(mask_region=3), mb, np.random.RandomState(1))
assert res["noshear"]["bmask"][0] == 8, res["noshear"]["bmask"]
''')

seed("p14-ormask-region-default", "P14", [("metadetect/metadetect.py",
 """            elif 'mask_region' in self and self['mask_region'] > 1:
                ormask_region = self['mask_region']""",
 """            elif 'mask_region' in self and self['mask_region'] > 1:
                ormask_region = 1""")],
 "a mask region and no own region for the OR mask",
 "the OR mask of a row covers its own pixel only", DPRE + '''
mb = mbobs(1)
blob(mb, 20, 24, 80)
with mb[0][0].writeable():
    mb[0][0].ormask[22, 22] = 16
mc.HOOK = same_mcal
sxdes.HOOK = found((24.0, 20.0))
res = M.do_metadetect(conf(mask_region=3), mb, np.random.RandomState(1))
assert res["noshear"]["ormask"][0] == 16, res["noshear"]["ormask"]
''')

seed("p14-unshear-step", "P14", [("metadetect/metadetect.py",
 """                step=self['metacal'].get("step", shearpos.DEFAULT_STEP),""",
 """                step=shearpos.DEFAULT_STEP,""")],
 "a metacal step other than 0.01 and an object away from the centre",
 "unsheared positions are those of the default step", DPRE + '''
mb = mbobs(1, ny=41, nx=61)
mc.HOOK = same_mcal
sxdes.HOOK = found((52.0, 20.0))
c = conf()
c["metacal"]["step"] = 0.05
res = M.do_metadetect(c, mb, np.random.RandomState(1))
x = res["1p"]["sx_col_noshear"][0]
S = np.array([[1.05, 0], [0, 0.95]])/np.sqrt(1 - 0.05**2)
assert abs(x - (30 + 22/S[0, 0])) < 0.05, x
''')

seed("p15-default-planes", "P15", [("metadetect/metadetect.py",
 """            for band in shear_bands:
                _mbobs.append(mbobs[band])""",
 """            for band in shear_bands:
                _mbobs.append(self.mbobs[band])""")],
 "a rendering of a colour whose PSF or masks differ from the default one",
 "the PSF and masks of an object are those of the default rendering", DPRE + '''
mb = mbobs(2)
col = mbobs(2, psfT=[0.7, 0.7])
for m in (mb, col):
    blob(m, 20, 24, 80)
mc.HOOK = same_mcal
sxdes.HOOK = found((24.0, 20.0))
res = M.do_metadetect(conf(), mb, np.random.RandomState(1), color_key_func=lambda f: "c",
                      color_dep_mbobs={"c": col})
T = res["noshear"]["psfrec_T"][0]
assert abs(T/0.7 - 1) < 0.2, T
''')

seed("p15-first-box", "P15", [("metadetect/metadetect.py",
 "                    cat['box_size'][i:i+1],",
 "                    cat['box_size'][:1],")],
 "colour dependent run with objects of different stamp sizes",
 "all objects are measured in stamps of the size of the first one", DPRE + '''
from metadetect import detect
mb = mbobs(2, ny=90, nx=90)
for p in (25, 60):
    blob(mb, p, p, 80)
mc.HOOK = same_mcal


def hook(image=None, **kw):
    cat, seg = found((25.0, 25.0), (60.0, 60.0))(image=image)
    cat["iso_radius"] = [4, 12]
    return cat, seg


sxdes.HOOK = hook
seen = []
old = M.fit_mbobs_list_wavg


def fit(*, mbobs_list, **kw):
    seen.append([m[0][0].image.shape[0] for m in mbobs_list])
    return old(mbobs_list=mbobs_list, **kw)


M.fit_mbobs_list_wavg = fit
c = conf()
c["meds"].update(min_box_size=24, max_box_size=64)
M.do_metadetect(c, mb, np.random.RandomState(1), color_key_func=lambda f: "c",
                color_dep_mbobs={"c": copy.deepcopy(mb)})
assert seen[0][0] != seen[0][1]
assert [s[0] for s in seen[1:3]] == seen[0], seen
''')

seed("p17-shared-list", "P17", [("metadetect/lsst/configs.py",
 """                new_config[key].update(config[key])
            else:
                new_config[key] = config[key]""",
 """                new_config[key] = config[key] = {**new_config[key], **config[key]}
            else:
                new_config[key] = config[key]""")],
 "a configuration given with part of a sub-configuration",
 "the configuration of the caller gets the defaults and is shared with the result",
 '''
import copy
from metadetect.lsst.configs import get_config
c = {"metacal": {"types": ["noshear"]}}
b = copy.deepcopy(c)
n = get_config(c)
assert c == b, c
n["metacal"]["types"] = 1
assert c == b
''')

seed("p18-obs-variance", "P18", [("metadetect/lsst/util.py",
 """    exp.image.array[:, :] = obs.image

    exp.variance.array[:, :] = np.inf
""",
 """    exp.image.array[:, :] = obs.image
""")],
 "an observation with zero weight copied into an existing exposure",
 "pixels without weight keep the finite variance the exposure had", LPRE + '''
e = L.build_exps(world(1))[0]
o = util.exp2obs(e, copy_mask_to="bmask")
with o.writeable():
    o.weight[3, 4] = 0
f = L.build_exps(world(1, seed=9))[0]
util.obs2exp(o, f)
assert f.variance.array[3, 4] == np.inf or f.variance.array[3, 4] <= 0
''')

seed("p18-copy-clear", "P18", [("metadetect/lsst/util.py",
 """    for new_exp, exp in zip(new_mbexp.singles, mbexp.singles):
        new_exp.setFilter(exp.getFilter())
        new_exp.setWcs(exp.getWcs())

    if clear:
        new_mbexp.image.array[:, :, :] = 0
""",
 """    for new_exp, exp in zip(new_mbexp.singles, mbexp.singles):
        new_exp.setFilter(exp.getFilter())
        new_exp.setWcs(mbexp.singles[0].getWcs())

    if clear:
        new_mbexp.image.array[0, :, :] = 0
""")],
 "clearing a copy of several bands",
 "only the first band of a cleared copy is cleared", LPRE + '''
mb = util.get_mbexp(L.build_exps(world(3)))
c = util.copy_mbexp(mb, clear=True)
assert all(np.all(e.image.array == 0) for e in c.singles)
''')

seed("p19-weights", "P19", [("metadetect/lsst/util.py",
 """        weight[w] += 1.0 / exp.variance.array[w]
""",
 """        weight[w] += this_weight
""")],
 "variances that vary over the image",
 "the variance of the coadd is constant", LPRE + '''
w = world(2, var="vary", lev=[1.0, 3.0])
exps = L.build_exps(w)
c = util.coadd_exposures(exps)
v = 1/sum(1/e.variance.array.astype(float) for e in exps)
assert np.allclose(c.variance.array, v, rtol=1e-4)
''')

seed("p19-psf-weights", "P19", [("metadetect/lsst/util.py",
 """        psf_im += this_psfim * this_weight
""",
 """        psf_im += this_psfim
""")],
 "bands of different noise and PSF",
 "the PSF of the coadd is the plain mean", LPRE + '''
p = [dict(dim=15, T=t, e1=0.0, e2=0.0, grad=0.0, noclone=False, norm=1.0)
     for t in (0.2, 0.6)]
exps = L.build_exps(world(2, psf=p, lev=[1.0, 10.0]))
c = util.coadd_exposures(exps)
cen = geom.Point2D(exps[0].getBBox().getCenter())
k = c.getPsf().computeKernelImage(cen).array
m = sum(e.getPsf().computeKernelImage(cen).array/v for e, v in zip(exps, (1.0, 10.0)))
assert np.allclose(k, m/m.sum(), atol=1e-6)
''')

seed("p20-noise-first-band", "P20", [("metadetect/lsst/masking.py",
 """        for band in bands:

            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])
""",
 """        for band in bands:

            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band0])
"""), ("metadetect/lsst/masking.py",
 """    bands = mbexp.bands

    afw_image.Mask.addMaskPlane('BRIGHT')
""",
 """    bands = mbexp.bands
    band0 = bands[0]

    afw_image.Mask.addMaskPlane('BRIGHT')
""")],
 "bright objects in several bands with noise images",
 "the taper is applied to the noise of the first band only, several times", LPRE + '''
from metadetect.lsst import masking
w = world(2)
mb, nm = util.get_mbexp(L.build_exps(w)), util.get_mbexp(L.build_exps(w, salt=1))
g = w["g"]
sky = mb["g"].getWcs().pixelToSky(geom.Point2D(g["x0"] + 20, g["y0"] + 18))
info = np.zeros(1, dtype=[("ra", "f8"), ("dec", "f8"), ("radius_pixels", "f8")])
info["ra"], info["dec"] = sky.getRa().asDegrees(), sky.getDec().asDegrees()
info["radius_pixels"] = 12
masking.apply_apodized_bright_masks_mbexp(mb, info, noise_mbexp=nm)
for b in "gr":
    assert abs(nm[b].image.array[18, 20]) < 1e-3
    assert not np.isfinite(nm[b].variance.array[18, 20])
''')

seed("p20-xy0-swap", "P20", [("metadetect/lsst/masking.py",
 """    xm -= xy0.x
    ym -= xy0.y""",
 """    xm -= xy0.y
    ym -= xy0.x""")],
 "an image whose origin has different row and column",
 "bright objects are masked at the wrong place", LPRE + '''
from metadetect.lsst import masking
w = world(1, x0=30, y0=22)
mb = util.get_mbexp(L.build_exps(w))
g = w["g"]
sky = mb["g"].getWcs().pixelToSky(geom.Point2D(g["x0"] + 20, g["y0"] + 18))
info = np.zeros(1, dtype=[("ra", "f8"), ("dec", "f8"), ("radius_pixels", "f8")])
info["ra"], info["dec"] = sky.getRa().asDegrees(), sky.getDec().asDegrees()
info["radius_pixels"] = 5
masking.apply_apodized_bright_masks_mbexp(mb, info)
bad = ~np.isfinite(mb["g"].variance.array)
y, x = np.nonzero(bad)
assert bad.any() and abs(y.mean() - 18) < 0.5 and abs(x.mean() - 20) < 0.5
''')

SUB = '''

class Cat:
    pass

'''
seed("p21-clip-size", "P21", [("metadetect/lsst/util.py",
 """    if clip:
        bbox.clip(exp_bbox)
    else:
        if not exp_bbox.contains(bbox):
            source_id""",
 """    if clip:
        bbox.clip(exp_bbox)
    else:
        if not exp_bbox.contains(bbox.getMin()):
            source_id""")],
 "a source so close to the edge that its stamp leaves the image",
 "stamps reaching out of the image are not refused", LPRE + '''
from lsst.pex.exceptions import LengthError
mb = util.get_mbexp(L.build_exps(world(1, x0=0, y0=0)))
cat = L.catalog()
s = cat.addNew()
s.setFootprint(L.footprint([(40, 20)], [(40, 20)]))
try:
    util.get_bbox(mb, s, 21)
except LengthError:
    pass
else:
    raise AssertionError("not refused")
''')

seed("p23-removal", "P23", [("metadetect/lsst/util.py",
 """        self.insertSource(source_id)

        try:
            # usually won't use this yielded value
            yield self.mbexp
        finally:
            self.removeSource(source_id)""",
 """        self.insertSource(source_id)

        # usually won't use this yielded value
        yield self.mbexp
        self.removeSource(source_id)""")],
 "an exception while a source is inserted, which the caller handles",
 "the source stays in the image", LPRE + '''
w = world(2)
mb = util.get_mbexp(L.build_exps(w))
g = w["g"]
cat = L.catalog()
s = cat.addNew()
px = [(g["x0"] + 10 + i, g["y0"] + 12 + j) for i in range(5) for j in range(5)]
s.setFootprint(L.footprint(px, [px[12]]))
with util.MultibandNoiseReplacer(mb, cat, np.random.RandomState(4)) as rep:
    before = [e.image.array.copy() for e in mb.singles]
    try:
        with rep.sourceInserted(s.getId()):
            raise KeyError
    except KeyError:
        pass
    assert all(np.array_equal(a, e.image.array) for a, e in zip(before, mb.singles))
''')

seed("p23-noise-level", "P23", [("metadetect/lsst/util.py",
 """        var = np.median(variance[use])
""",
 """        var = np.mean(variance[use])
""")],
 "an image with a few pixels of very large variance",
 "the noise level is driven by outliers", LPRE + '''
e = L.build_exps(world(1))[0]
e.variance.array[:2, :] = 1e6
n = util.get_noise_image(e, np.random.RandomState(3), remove_poisson=False)
assert 0.8 < n.image.array.std() < 1.2, n.image.array.std()
''')

seed("p24-rot-back", "P24", [("metadetect/lsst/metacal_exposures.py",
 "        simage = np.rot90(simage, k=3)",
 "        simage = np.rot90(simage, k=1)")],
 "noise images for the fixed noise method",
 "the noise comes back upside down", LPRE + '''
from metadetect.lsst import metacal_exposures as X
w = world(1, ny=41, nx=41, dim=15, T=0.3)
e = L.build_exps(w)[0]
e.image.array[:, :] = 0
e.image.array[8:11, 12:15] = 10
m = X.get_metacal_exps(e, types=["noshear"], rot=True)["noshear"].image.array
y, x = np.unravel_index(np.argmax(m), m.shape)
assert (y, x) == (9, 13), (y, x)
''')

seed("p24-second-band-stats", "P24", [("metadetect/lsst/metacal_exposures.py",
 "            psf_band_stats = psf_stats[iband]",
 "            psf_band_stats = psf_stats[0]")],
 "bands with different PSFs and fitted PSF statistics",
 "all bands are reconvolved with the target PSF of the first", LPRE + '''
from metadetect.lsst import metacal_exposures as X
p = [dict(dim=25, T=t, e1=0.0, e2=0.0, grad=0.0, noclone=False, norm=1.0)
     for t in (0.3, 0.6)]
mb = util.get_mbexp(L.build_exps(world(2, ny=51, nx=51, psf=p)))
st = np.zeros(2, dtype=[("e1", "f8"), ("e2", "f8"), ("T", "f8")])
st["T"] = 0.3, 0.6
m = X.get_metacal_mbexps(mb, types=["noshear"], psf_stats=st)["noshear"]


def size(e):
    k = e.getPsf().computeKernelImage(geom.Point2D(e.getBBox().getCenter())).array
    y, x = np.mgrid[:k.shape[0], :k.shape[1]] - 12.0
    return (k*(x**2 + y**2)).sum()/k.sum()*0.04


a, b = (size(m[x]) for x in "gr")
assert abs(a/0.3 - 1) < 0.1 and abs(b/0.6 - 1) < 0.1, (a, b)
''')

seed("p25-skip-rest", "P25", [("metadetect/lsst/skysub.py",
 """        for exp in mbexp:
            self.iterate_detection_and_skysub.run(exposure=exp)""",
 """        for exp in mbexp:
            if self.iterate_detection_and_skysub.run(exposure=exp) is None:
                break""")],
 "a failure of the sky measurement in a band which is not the last",
 "the sky of the following bands is not subtracted", LPRE + '''
import lsst.meas.algorithms as A
from lsst.pipe.base import TaskError
from metadetect.lsst import skysub
mb = util.get_mbexp(L.build_exps(world(3, ny=60, nx=60)))
for e in mb.singles:
    e.image.array[:, :] += 50
n = []


def back(exposure, config):
    n.append(exposure)
    if exposure.getFilter().bandLabel == "r":
        raise TaskError("no")
    return float(np.mean(exposure.image.array))


A.BACK_HOOK = back
skysub.subtract_sky_mbexp(mb)
bands = {e.getFilter().bandLabel for e in n}
assert bands == {"g", "r", "i"}, bands
''')

seed("p26-row-diff", "P26", [("metadetect/lsst/measure.py",
 """    output['row'] = orig_cen.getY()
    output['col'] = orig_cen.getX()
    output['row_diff'] = cen_offset.getY()""",
 """    output['row'] = orig_cen.getY()
    output['col'] = orig_cen.getX()
    output['row_diff'] = cen_offset.getX()""")],
 "a centroid off its peak by different amounts in row and column",
 "the offset in rows is that in columns", RPRE + '''
from metadetect.lsst import photometry
S = scene([dict(src(40, 38), fx=0.4, fy=-0.4)])
r = photometry.run_photometry(S.mb, np.random.RandomState(1), config=S.config)
i = np.argmax(r["gauss_s2n"])
assert r["row_diff"][i] < -0.1 < 0.1 < r["col_diff"][i], (r["row_diff"], r["col_diff"])
''')

seed("p26-stamp-flag-kept", "P26", [("metadetect/lsst/measure.py",
 """        bmask = get_bmask(source=source, exposure=detexp)

        stamp_flags = 0
        try:""",
 """        bmask = get_bmask(source=source, exposure=detexp)

        try:"""), ("metadetect/lsst/measure.py",
 """    for source in extractor.children():

        # perform basic""",
 """    stamp_flags = 0
    for source in extractor.children():

        # perform basic""")],
 "a source at the edge followed by others",
 "the flag of a bad stamp stays for all following sources", RPRE + '''
from metadetect.lsst import photometry
S = scene([src(8, 8), src(40, 45)])
r = photometry.run_photometry(S.mb, np.random.RandomState(1), config=S.config)
good = np.hypot(r["col"] - 100 - 40.1, r["row"] - 50 - 44.8) < 1
edge = np.hypot(r["col"] - 100 - 8.1, r["row"] - 50 - 7.8) < 1
assert edge.any() and good.any()
assert np.all(r["stamp_flags"][edge] != 0) and np.all(r["stamp_flags"][good] == 0)
''')

seed("p27-threshold", "P27", [("metadetect/lsst/measure.py",
 """    if thresh:
        if 'detect' not in config_override:
            config_override['detect'] = {}
        config_override['detect']['thresholdValue'] = thresh

    config = DetectAndDeblendConfig()""",
 """    if thresh:
        if 'detect' not in config_override:
            config_override['detect'] = {'thresholdValue': thresh}

    config = DetectAndDeblendConfig()""")],
 "a threshold together with other settings of the detection",
 "the given threshold is ignored", LPRE + '''
from metadetect.lsst import measure
t = measure.get_detect_and_deblend_task(thresh=17.0, config={"detect": {"minPixels": 3}})
assert t.detect.config.thresholdValue == 17.0, t.detect.config.thresholdValue
assert t.detect.config.minPixels == 3
''')

seed("p28-type-mixed", "P28", [("metadetect/lsst/metadetect.py",
 """            res = detect_deblend_and_measure(
                mbexp=mcal_mbexp,""",
 """            res = detect_deblend_and_measure(
                mbexp=mcal_mbexp if shear_str != '2m' else mdict.get('2p', mcal_mbexp),""")],
 "runs that ask for both signs of the second shear component",
 "the results for 2m are those of 2p", RPRE + '''
from metadetect.lsst.metadetect import run_metadetect
S = scene([src(40, 38)])
r = run_metadetect(S.mb, S.nmb, np.random.RandomState(1), config=dict(
    S.config, metacal={"types": ["2p", "2m"]}))
a, b = (r[t][np.argmax(r[t]["gauss_s2n"])]["gauss_g"] for t in ("2p", "2m"))
assert a[1] - b[1] > 0.005, (a, b)
''')

seed("p28-sky-thresh", "P28", [("metadetect/lsst/metadetect.py",
 """        config['detect']['thresh'] = self.detect.config.thresholdValue
""",
 """        config['detect'].setdefault('thresh', self.config.detect.thresholdValue)
        config['metacal'].setdefault('reconv_type', 'gauss')
        if self.config.shear_bands is not None:
            config['detect']['thresh'] = self.config.detect.value.__class__().thresholdValue
""")],
 "a detection threshold together with a choice of shear bands",
 "the threshold is ignored when shear bands are chosen", RPRE + '''
from metadetect.lsst.metadetect import run_metadetect
import metadetect.lsst.measure as measure
got = []
old = measure.get_detect_and_deblend_task


def get(**k):
    got.append(k["thresh"])
    return old(**k)


measure.get_detect_and_deblend_task = get
S = scene([src(40, 38)])
run_metadetect(S.mb, S.nmb, np.random.RandomState(1), config=dict(
    S.config, detect={"thresh": 20.0}, shear_bands=["r"],
    metacal={"types": ["noshear"]}))
assert got == [20.0], got
''')

seed("p29-ormask-caller", "P29", [("metadetect/lsst/metadetect.py",
 "                ormask = tormask.copy()",
 "                ormask = tormask")],
 "several OR masks",
 "the first OR mask of the caller is changed", LPRE + '''
from metadetect.lsst.metadetect import combine_ormasks
mb = util.get_mbexp(L.build_exps(world(2)))
a = np.zeros((40, 44), "i4")
b = a + 4
r = combine_ormasks(mb, [a, b])
assert np.all(r == 4) and np.all(a == 0)
''')

seed("p29-psf-shear-bands", "P29", [("metadetect/lsst/metadetect.py",
 """                e1sum += e1 * wgt
                e2sum += e2 * wgt
                Tsum += T * wgt""",
 """                e1sum += e1 * wgt
                e2sum += e2 * wgt
            Tsum += T * wgt * len(shear_band_indices) / nband""")],
 "fewer shear bands than bands, and PSFs of different sizes",
 "the PSF size is averaged over all bands", LPRE + '''
from metadetect.lsst.metadetect import fit_original_psfs_mbexp
p = [dict(dim=25, T=t, e1=0.0, e2=0.0, grad=0.0, noclone=False, norm=1.0)
     for t in (0.3, 0.6)]
mb = util.get_mbexp(L.build_exps(world(2, psf=p)))
r = fit_original_psfs_mbexp(mb, np.random.RandomState(1), [1.0, 1.0],
                            {"shear_bands": ["g"]})
assert abs(r["T"]/0.3 - 1) < 0.05, r["T"]
''')

seed("p29-mfrac-end", "P29", [("metadetect/lsst/metadetect.py",
 """        if xend > nx:
            xend = nx
        if yend > ny:
            yend = ny""",
 """        if xend > nx:
            xend = nx
        if yend > nx:
            yend = nx""")],
 "an image higher than wide and an object beyond its width",
 "the aperture is cut at the width of the image", LPRE + '''
from metadetect.lsst.metadetect import measure_weighted_mfrac
m = np.zeros((80, 40))
m[60:, :] = 1
j = ngmix.DiagonalJacobian(row=0, col=0, scale=0.2)
r = measure_weighted_mfrac(mfrac=m, x=np.array([20.0]), y=np.array([70.0]), jac=j, fwhm=None)
assert abs(r[0] - 1) < 1e-3 and measure_weighted_mfrac(
    mfrac=m*0, x=np.array([20.0]), y=np.array([70.0]), jac=j, fwhm=None)[0] == 0, r
''')

seed("p30-meas-config", "P30", [("metadetect/lsst/photometry.py",
 """        add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
        add_ormask(ormask, res)
        add_original_psf(psf_stats, res)""",
 """        if mfrac_mbexp is not None:
            add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
        add_ormask(ormask, res)
        add_original_psf(psf_stats, res)""")],
 "no masked fraction images given",
 "the masked fraction is NaN instead of zero", RPRE + '''
from metadetect.lsst import photometry
S = scene([src(40, 38)])
r = photometry.run_photometry(S.mb, np.random.RandomState(1), config=S.config)
assert np.all(r["mfrac"] == 0), r["mfrac"]
''')

seed("p22-exception", "P22", [("metadetect/lsst/model_subtractor.py",
 """        try:
            yield self.mbexp
        finally:
            self._add_or_subtract_source(source_id, 'subtract')
            # self._add_or""",
 """        try:
            yield self.mbexp
        except LengthError:
            raise
        else:
            self._add_or_subtract_source(source_id, 'subtract')
            # self._add_or""")],
 "a stamp which does not fit, asked for with the source added back",
 "the model stays in the image after the refused stamp", RPRE + '''
from metadetect.lsst import measure
from metadetect.lsst.model_subtractor import ModelSubtractor
from lsst.pex.exceptions import LengthError
S = scene([src(40, 38)])
t = measure.get_detect_and_deblend_task(rng=np.random.RandomState(1), deblender="scarlet")
sources, det, md = t.run(S.mb)
m = ModelSubtractor(S.mb, sources, md)
i = list(m.child_ids())[0]
before = [e.image.array.copy() for e in m.mbexp.singles]
try:
    with m.add_source(i):
        m.get_stamp(i, stamp_size=500)
except LengthError:
    pass
assert all(np.allclose(a, e.image.array, atol=1e-3)
           for a, e in zip(before, m.mbexp.singles))
''')

seed("p22-original-mbobs", "P22", [("metadetect/lsst/model_subtractor.py",
 """        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        source = self.sources.find(source_id)""",
 """        mbexp = self.mbexp

        source = self.sources.find(source_id)""")],
 "observations of the original kind of a source with neighbours",
 "the original observations have models subtracted", RPRE + '''
from metadetect.lsst import measure
from metadetect.lsst.model_subtractor import ModelSubtractor
S = scene([src(40, 38)])
t = measure.get_detect_and_deblend_task(rng=np.random.RandomState(1), deblender="scarlet")
sources, det, md = t.run(S.mb)
m = ModelSubtractor(S.mb, sources, md)
i = list(m.child_ids())[0]
a = m.get_mbobs(i, stamp_size=11, type="original")[0][0].image
b = m.get_stamp(i, stamp_size=11, type="original").singles[0].image.array
assert np.allclose(a, b)
''')
