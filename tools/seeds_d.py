_b = open(os.path.join(here, "tools", "seeds_b.py")).read().split("seed(\"p13-last")[0]
exec(_b)
_a = open(os.path.join(here, "tools", "seeds_a.py")).read()
APRE = eval(_a[len("PRE = "):_a.index("'''\n", 10) + 3])

seed("p05-caller-image", "P05", [("metadetect/mfrac.py",
 """    obs = obs.copy()
    obs.set_image(mfrac)
""",
 """    obs = obs.copy() if np.any(obs.image) else obs
    obs.set_image(mfrac)
""")],
 "an observation whose image is all zero", "the image of the caller is replaced by the masked fraction",
 PRE + '''
from metadetect.mfrac import measure_mfrac
j = ngmix.DiagonalJacobian(row=10, col=10, scale=0.25)
o = ngmix.Observation(np.zeros((21, 21)), weight=np.ones((21, 21)), jacobian=j,
                      bmask=np.zeros((21, 21), "i4"), ormask=np.zeros((21, 21), "i4"),
                      noise=np.zeros((21, 21)),
                      psf=ngmix.Observation(np.ones((5, 5)), jacobian=ngmix.DiagonalJacobian(
                          row=2, col=2, scale=0.25)))
measure_mfrac(mfrac=np.full((21, 21), 0.3), x=np.array([10.0]), y=np.array([9.0]),
              box_sizes=np.array([16]), obs=o, fwhm=1.0)
assert np.all(o.image == 0)
''')

seed("p06-first-order", "P06", [("metadetect/shearpos.py",
 """    ainv = np.linalg.inv(shear.getMatrix())
""",
 """    ainv = 2*np.identity(2) - shear.getMatrix()
""")],
 "a step that is not small, far away from the centre",
 "the sheared position is undone to first order only", PRE + '''
from metadetect.shearpos import shear_positions, unshear_positions
j = ngmix.Jacobian(row=3, col=4, dudrow=0.01, dudcol=0.2, dvdrow=0.21, dvdcol=-0.02)
r, c = np.array([3.0, 2900.0]), np.array([3000.0, 7.0])
for t in ("1p", "1m", "2p", "2m"):
    a, b = shear_positions(r, c, t, j, (3000, 3100), step=0.02)
    a, b = unshear_positions(a, b, t, j, (3000, 3100), step=0.02)
    assert np.allclose(a, r, atol=1e-6) and np.allclose(b, c, atol=1e-6), (t, a, b)
''')

seed("p11-border", "P11", [("metadetect/fitting.py",
 """    if np.any(obs.weight <= 0):
        new_wgt = obs.weight.copy()
        for k in [1, 2, 3]:""",
 """    if np.any(obs.weight[:-1, :-1] <= 0):
        new_wgt = obs.weight.copy()
        for k in [1, 2, 3]:""")],
 "a stamp whose only pixels without weight are in its last row or column",
 "the weights of such a stamp are not symmetrized", PRE + '''
from metadetect.fitting import symmetrize_obs_weights
w = np.ones((8, 8))
w[7, 2:5] = 0
o = ngmix.Observation(np.zeros((8, 8)), weight=w,
                      jacobian=ngmix.DiagonalJacobian(row=3.5, col=3.5, scale=1.0))
s = symmetrize_obs_weights(o).weight
assert np.array_equal(s > 0, np.rot90(s) > 0)
''')

seed("p12-first-label", "P12", [("metadetect/fitting.py",
 "                        if not np.array_equal(res[col], _res[col]):",
 "                        if res[col][0] != _res[col][0]:")],
 "tables that agree in the shear bands of the first row but not in a later one",
 "tables of different shear bands are combined", '''
import numpy as np
from metadetect.fitting import combine_fit_res
a = np.zeros(3, dtype=[("a", "f8"), ("shear_bands", "U6")])
b = np.zeros(3, dtype=[("b", "f8"), ("shear_bands", "U6")])
a["shear_bands"] = b["shear_bands"] = "01"
combine_fit_res([a, b])
b["shear_bands"][2] = "02"
try:
    combine_fit_res([a, b])
except RuntimeError:
    pass
else:
    raise SystemExit("not refused")
''')

seed("p16-low-bits", "P16", [("metadetect/procflags.py",
 "    return ngmix.flags.get_flags_str(val, name_map=NAME_MAP)",
 "    return ngmix.flags.get_flags_str(\n"
 "        int(val) & (DEBLEND_FAILURE - 1), name_map=NAME_MAP,\n    )")],
 "the flag of a failed deblending, alone or with others", "its meaning is missing from the text", '''
from metadetect import procflags as p
s = p.get_procflags_str(p.DEBLEND_FAILURE | p.EDGE_HIT)
assert p.NAME_MAP[p.DEBLEND_FAILURE] in s and p.NAME_MAP[p.EDGE_HIT] in s, s
''')

seed("p17-none-kept", "P17", [("metadetect/lsst/configs.py",
 """            else:
                new_config[key] = config[key]
""",
 """            elif config[key] is not None:
                new_config[key] = config[key]
"""), ("metadetect/lsst/configs.py",
 """                new_config[key].update(config[key])
""",
 """                for name, value in config[key].items():
                    if value:
                        new_config[key][name] = value
""")],
 "a setting of a sub-configuration that is zero, false or None",
 "the default is used although another value was given", '''
from metadetect.lsst.configs import get_config
c = get_config({"metacal": {"use_noise_image": False}, "detect": {"thresh": 0.0}})
assert c["metacal"].get("use_noise_image", "missing") is False, c
assert c["detect"]["thresh"] == 0.0, c
''')

seed("p21-nan-centre", "P21", [("metadetect/lsst/util.py",
 """        peak = source.getFootprint().getPeaks()[0]
        orig_cen_i = peak.getI()
        orig_cen = geom.Point2D(
            x=orig_cen_i.getX(),
            y=orig_cen_i.getY(),
        )
""",
 """        orig_cen = geom.Point2D(geom.Point2I(exp.getBBox().getCenter()))
""")],
 "a source without a sky position whose stamp is clipped at the edge of the image",
 "the stamp's coordinates are centred on the stamp, not on the source", LPRE + '''
from metadetect.lsst.mbobs_extractor import MBObsExtractor
mb = util.get_mbexp(L.build_exps(world(2, x0=0, y0=0)))
cat = L.catalog()
s = cat.addNew()
s.setFootprint(L.footprint([(3, 20)], [(3, 20)]))
ex = MBObsExtractor(mb, cat)
o = ex.get_mbobs(s.getId(), 21, clip=True)[0][0]
s.setCoord(geom.SpherePoint(float("nan"), float("nan"), geom.degrees))
o = ex.get_mbobs(s.getId(), 21, clip=True)[0][0]
row, col = o.jacobian.get_cen()
assert (row, col) == (10, 3), (row, col)
''')

seed("p25-caller-config", "P25", [("metadetect/lsst/skysub.py",
 """    config_override = deepcopy(config) if config is not None else {}

    if thresh:""",
 """    config_override = dict(config) if config is not None else {}

    if thresh:""")],
 "a configuration with settings of the detection and a threshold",
 "the threshold is written into the caller's configuration", LPRE + '''
from metadetect.lsst import skysub
c = {"iterate_detection_and_skysub": {"niter": 1, "detect": {"minPixels": 2}}}
keep = copy.deepcopy(c)
skysub.subtract_sky_mbexp(util.get_mbexp(L.build_exps(world(2, ny=60, nx=60))), thresh=7,
                          config=c)
assert c == keep, c
''')

seed("p27-shared-image", "P27", [("metadetect/lsst/measure.py",
 """        if len(mbexp.singles) > 1:
            detexp = util.coadd_exposures(mbexp.singles)
            if detexp is None:
                return [], None, None
        else:
            detexp = mbexp.singles[0]
""",
 """        if len(mbexp.singles) > 1:
            singles = [
                exp for exp in mbexp.singles
                if np.all(np.isfinite(exp.variance.array))
            ] or mbexp.singles
            detexp = util.coadd_exposures(singles)
            if detexp is None:
                return [], None, None
        else:
            detexp = mbexp.singles[0]
""")],
 "a band with some pixels without data", "the whole band is left out of the detection image",
 LPRE + '''
from metadetect.lsst import measure
exps = L.build_exps(world(3, ny=60, nx=60))
exps[1].variance.array[:4, :] = np.inf
mb = util.get_mbexp(exps)
sources, det, _ = measure.get_detect_and_deblend_task().run(mbexp=mb)
c = util.coadd_exposures(mb.singles)
assert np.allclose(det.image.array, c.image.array)
''')

seed("p30-psf-failed", "P30", [("metadetect/lsst/photometry.py",
 """        add_original_psf(psf_stats, res)
""",
 """        if psf_stats['flags'] == 0:
            add_original_psf(psf_stats, res)
""")],
 "an original PSF that cannot be fit", "the failure is not flagged in the table", RPRE + '''
from metadetect import procflags
from metadetect.lsst import photometry
S = scene([src(40, 38)])
k = geom.Point2D(S.mb.singles[0].getBBox().getCenter())
want = S.mb.singles[0].getPsf().computeKernelImage(k).array.shape[0]
fit = ngmix.runners.PSFRunner.go


def go(self, obs, **kw):
    if isinstance(self.fitter, ngmix.admom.AdmomFitter) and obs.image.shape[0] == want:
        return {"flags": 4}
    return fit(self, obs, **kw)


ngmix.runners.PSFRunner.go = go
r = photometry.run_photometry(S.mb, np.random.RandomState(1), config=S.config)
assert np.all(r["psfrec_flags"] != 0) and not np.any(r["psfrec_flags"] & procflags.NO_ATTEMPT), r["psfrec_flags"]
''')
