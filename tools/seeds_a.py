PRE = '''
import numpy as np
import ngmix


def obs(im, wt=None, jac=None, psf=None, **kw):
    im = np.asarray(im, dtype=float)
    if jac is None:
        jac = ngmix.DiagonalJacobian(row=(im.shape[0]-1)/2, col=(im.shape[1]-1)/2,
                                     scale=0.2)
    y, x = np.mgrid[:13, :13] - 6.0
    p = np.exp(-(x**2 + y**2)/2/2.0**2) if psf is None else psf
    p = p/p.sum()
    kw.setdefault("bmask", np.zeros(im.shape, "i4"))
    pj = jac.copy()
    pj.set_cen(row=6, col=6)
    return ngmix.Observation(
        im, weight=np.ones(im.shape) if wt is None else wt, jacobian=jac,
        psf=ngmix.Observation(p, weight=np.full(p.shape, 1e6), jacobian=pj), **kw)


def mb(*all):
    m = ngmix.MultiBandObsList()
    for o in all:
        l = ngmix.ObsList()
        l.append(o)
        m.append(l)
    return m


def gal(ny, nx, y0, x0, T=8.0, e1=0.0, e2=0.0, flux=100.0):
    y, x = np.mgrid[:ny, :nx].astype(float)
    C = T/2*np.array([[1+e1, e2], [e2, 1-e1]])
    p = np.stack([x-x0, y-y0], -1)
    q = np.einsum("...i,ij,...j", p, np.linalg.inv(C), p)
    return flux*np.exp(-q/2)/(2*np.pi*np.sqrt(np.linalg.det(C)))

'''

seed("p01-bad-values", "P01", [("metadetect/interpolate.py",
     "        good_im = interp_image[good_yx[0], good_yx[1]]\n        try:",
     "        good_im = image[good_yx[0], good_yx[1]]\n        try:")],
     "noise filling of a masked region with isolated pixels",
     "the other masked pixels are interpolated from the bad values of isolated ones",
     '''
import numpy as np
from metadetect.interpolate import interpolate_image_at_mask
im = np.ones((24, 24))
bad = np.zeros(im.shape, bool)
bad[9:14, 9:14] = True
im[bad] = 1e9
out = interpolate_image_at_mask(image=im, bad_msk=bad, fill_isolated_with_noise=True,
                                weight=1.0, rng=np.random.RandomState(1), iso_buff=1)
assert np.all(np.abs(out) < 100), np.abs(out).max()
''')

seed("p01-affine-buff", "P01", [("metadetect/interpolate.py",
     """                if buff != iso_buff:
                    row_start = row - buff
                    row_end = row + buff
                    col_start = col - buff
                    col_end = col + buff
""", """                if buff > iso_buff:
                    row_start = row - buff
                    row_end = row + buff
                    col_start = col - buff
                    col_end = col + buff
""")],
     "an isolation distance larger than the buffer of good pixels",
     "good pixels farther away than the requested buffer are used",
     '''
import numpy as np
from metadetect.interpolate import interpolate_image_at_mask
rng = np.random.RandomState(3)
im = rng.normal(size=(20, 20))
bad = np.zeros(im.shape, bool)
bad[6, 3:9] = True
bad[12, 9:15] = True
kw = dict(bad_msk=bad, buff=1, iso_buff=3)
a = interpolate_image_at_mask(image=im, **kw)
far = np.ones(im.shape, bool)
for r, c in zip(*np.where(bad)):
    far[r-1:r+2, c-1:c+2] = False
im2 = im.copy()
im2[far] += 1000
b = interpolate_image_at_mask(image=im2, **kw)
assert np.allclose(a[bad], b[bad]), "far pixels are used"
''')

seed("p02-nonsquare", "P02", [("metadetect/masking.py",
     "    high_col = ncols + radius_pixels - 1\n",
     "    high_col = min(nrows, ncols) + radius_pixels - 1\n")],
     "an image wider than high and a hole near its right side",
     "holes on the right of a wide image are not masked",
     '''
import numpy as np
from metadetect.masking import make_foreground_bmask
m = make_foreground_bmask(xm=np.array([35.0]), ym=np.array([5.0]), rm=np.array([3.0]),
                          dims=(12, 40), symmetrize=False, mask_bit_val=4)
y, x = np.mgrid[:12, :40]
assert np.array_equal(m, np.where((x-35)**2 + (y-5)**2 < 9, 4, 0))
''')

seed("p02-flag-bits", "P02", [("metadetect/masking.py",
     "    if symmetrize:\n        bmask |= np.rot90(bmask)\n\n    return bmask",
     "    if symmetrize:\n        bmask |= np.rot90(bmask, k=-1)\n\n    return bmask")],
     "symmetrization of holes that are not symmetric themselves",
     "the rotated copy of the holes is on the wrong side",
     '''
import numpy as np
from metadetect.masking import make_foreground_bmask
kw = dict(xm=np.array([4.0]), ym=np.array([9.0]), rm=np.array([3.0]), dims=(20, 20),
          mask_bit_val=2)
a = make_foreground_bmask(symmetrize=False, **kw)
b = make_foreground_bmask(symmetrize=True, **kw)
assert np.array_equal(b, a | np.rot90(a))
''')

seed("p03-overlap", "P03", [("metadetect/masking.py",
     "                    ap_mask[_y, _x] *= _ap_kern_kern(np.sqrt(dr2), rad, ap_rad)\n",
     "                    ap_mask[_y, _x] = min(\n                        ap_mask[_y, _x],\n"
     "                        _ap_kern_kern(np.sqrt(dr2), rad, ap_rad),\n                    )\n")],
     "two overlapping holes", "overlapping windows take the minimum and not the product",
     '''
import numpy as np
from metadetect.masking import make_foreground_apodization_mask
def go(x, y, r):
    return make_foreground_apodization_mask(
        xm=np.array(x), ym=np.array(y), rm=np.array(r), dims=(30, 30), symmetrize=False,
        ap_rad=1.0)
a, b = go([10.0], [15.0], [8.0]), go([18.0], [14.0], [7.0])
assert np.allclose(go([10.0, 18.0], [15.0, 14.0], [8.0, 7.0]), a*b)
''')

seed("p03-edge-range", "P03", [("metadetect/masking.py",
     """    for y in range(ny):
        for x in range(min(ap_range+1, nx)):
""", """    for y in range(ny):
        for x in range(min(ap_range+1, ny)):
""")],
     "an image higher or wider than the other side with a taper longer than one side",
     "the window at the edge is cut off, or written outside of the image",
     '''
import numpy as np
from metadetect.masking import _build_square_apodization_mask
def make(shape):
    m = np.ones(shape)
    _build_square_apodization_mask(1.5, m)
    return m
m = make((5, 40))
row = m[2]/m[2, 20]
one = make((60, 40))[30]
assert np.allclose(row, one), (row, one)
''')

seed("p04-mfrac-refused", "P04", [("metadetect/masking.py",
     """                        if hasattr(obs, "mfrac"):
                            obs.mfrac[:, :] = 1.0
""", """                        if hasattr(obs, "mfrac"):
                            obs.mfrac[wbad] = 1.0
""")],
     "a mask that leaves nothing to interpolate from",
     "the masked fraction of the pixels outside the holes is not one",
     PRE + '''
from metadetect.masking import apply_foreground_masking_corrections
r = np.random.RandomState(0)
m = mb(obs(r.normal(size=(12, 12)), noise=r.normal(size=(12, 12)),
           bmask=np.zeros((12, 12), "i4"), mfrac=np.zeros((12, 12))))
# all but one row is covered
y = np.arange(-1.0, 11.0)
apply_foreground_masking_corrections(
    mbobs=m, xm=np.repeat(6.0, 1), ym=np.array([-94.5]), rm=np.array([105.0]),
    method="interp", mask_expand_rad=0, mask_bit_val=1, expand_mask_bit_val=2,
    interp_bit_val=4, symmetrize=False, ap_rad=1, iso_buff=1, rng=r)
o = m[0][0]
assert np.all(o.weight == 0) and np.all(o.bmask & 1)
assert np.all(o.mfrac == 1)
''')

seed("p04-second-epoch-noise", "P04", [("metadetect/masking.py",
     """                    obs.image *= ap_mask
                    obs.noise *= ap_mask
""", """                    obs.image[msk] *= ap_mask[msk]
                    if np.any(obs.weight[msk] > 0):
                        obs.noise[msk] *= ap_mask[msk]
""")],
     "apodization of a hole whose pixels have no weight already",
     "the noise image is not tapered like the image",
     PRE + '''
from metadetect.masking import apply_foreground_masking_corrections
r = np.random.RandomState(0)
wt = np.ones((24, 24))
wt[:, 12:] = 0
n0 = r.normal(size=(24, 24))
m = mb(obs(np.ones((24, 24)), wt=wt, noise=n0.copy(), bmask=np.zeros((24, 24), "i4"),
           mfrac=np.zeros((24, 24))))
apply_foreground_masking_corrections(
    mbobs=m, xm=np.array([18.0]), ym=np.array([12.0]), rm=np.array([5.5]),
    method="apodize", mask_expand_rad=0, mask_bit_val=1, expand_mask_bit_val=2,
    interp_bit_val=4, symmetrize=False, ap_rad=0.5, iso_buff=1, rng=r)
o = m[0][0]
assert np.allclose(o.noise, n0*o.image)
''')

seed("p05-weights", "P05", [("metadetect/mfrac.py",
     "                wgt[msk] = 0\n                wgt[~msk] = 1\n",
     "                wgt[msk] = 0\n                if not np.any(wgt > 0):\n"
     "                    wgt[~msk] = 1\n")],
     "pixels without weight near the position", "the masked fraction misses pixels that have no weight",
     PRE + '''
from metadetect.mfrac import measure_mfrac
r = np.random.RandomState(0)
mf = r.uniform(size=(40, 40))
kw = dict(mfrac=mf, x=np.array([20.0]), y=np.array([19.0]), box_sizes=np.array([32]),
          fwhm=1.2)
a = measure_mfrac(obs=obs(mf), **kw)
wt = np.ones(mf.shape)
wt[:, 21:] = 0
b = measure_mfrac(obs=obs(mf, wt=wt), **kw)
assert np.allclose(a, b), (a, b)
''')

seed("p06-center", "P06", [("metadetect/shearpos.py",
     """    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
""", """    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) // 2
""")],
     "an even number of rows", "unsheared positions are off by a part of a pixel",
     '''
import numpy as np
import ngmix
from metadetect.shearpos import shear_positions, unshear_positions
j = ngmix.Jacobian(row=3, col=4, dudrow=0.01, dudcol=0.2, dvdrow=0.21, dvdcol=-0.02)
r, c = np.array([3.0, 20.0]), np.array([30.0, 7.0])
for t in ("1p", "2m"):
    a, b = shear_positions(r, c, t, j, (40, 36), step=0.05)
    a, b = unshear_positions(a, b, t, j, (40, 36), step=0.05)
    assert np.allclose(a, r, atol=1e-8) and np.allclose(b, c, atol=1e-8), (t, a - r, b - c)
''')

seed("p07-mask-bands", "P07", [("metadetect/detect.py",
     "                mask |= (obs.bmask & self.nodet_flags != 0)\n",
     "                mask |= (obs.bmask & self.nodet_flags == self.nodet_flags)\n")],
     "several no-detection bits of which a pixel has only some",
     "pixels with one of several no-detection bits are not excluded",
     PRE + '''
from metadetect.detect import MEDSifier
im = gal(48, 48, 12, 12, flux=5000) + gal(48, 48, 34, 34, flux=5000)
bm = np.zeros(im.shape, "i4")
bm[28:41, 28:41] = 2
o = obs(im, bmask=bm)
m = MEDSifier(mb(o), None, dict(min_box_size=32, max_box_size=32, box_type="iso_radius",
              rad_min=4, rad_fac=2, box_padding=2), nodet_flags=6)
assert m.cat.size == 1, m.cat.size
''')

seed("p07-cutout-clip", "P07", [("metadetect/detect.py",
     """        half_box_size = self.box_sizes//2

        maxrow, maxcol = self.mbobs[0][0].image.shape
""", """        half_box_size = self.box_sizes//2

        maxcol, maxrow = self.mbobs[0][0].image.shape
"""), ("metadetect/detect.py", """        oend_row.clip(max=maxrow, out=oend_row)
        oend_col.clip(max=maxcol, out=oend_col)

        # could result in smaller than box_size above
        cat['orig_start_row'][:, 0] = ostart_row
        cat['orig_start_col'][:, 0] = ostart_col
        cat['orig_end_row'][:, 0] = oend_row
        cat['orig_end_col'][:, 0] = oend_col
        cat['cutout_row'][:, 0] = \\
            cat['orig_row'][:, 0] - cat['orig_start_row'][:, 0]
        cat['cutout_col'][:, 0] = \\
            cat['orig_col'][:, 0] - cat['orig_start_col'][:, 0]

        psf_cen = (np.array(self.mbobs[0][0].psf.image.shape) - 1)/2
        cat['psf_cutout_row'][:, 0] = psf_cen[0]
        cat['psf_cutout_col'][:, 0] = psf_cen[1]

        if seg""", """        ostart_row.clip(max=maxrow - 1, out=ostart_row)
        oend_row.clip(max=maxrow, out=oend_row)
        oend_col.clip(max=maxcol, out=oend_col)

        # could result in smaller than box_size above
        cat['orig_start_row'][:, 0] = ostart_row
        cat['orig_start_col'][:, 0] = ostart_col
        cat['orig_end_row'][:, 0] = oend_row
        cat['orig_end_col'][:, 0] = oend_col
        cat['cutout_row'][:, 0] = \\
            cat['orig_row'][:, 0] - cat['orig_start_row'][:, 0]
        cat['cutout_col'][:, 0] = \\
            cat['orig_col'][:, 0] - cat['orig_start_col'][:, 0]

        psf_cen = (np.array(self.mbobs[0][0].psf.image.shape) - 1)/2
        cat['psf_cutout_row'][:, 0] = psf_cen[0]
        cat['psf_cutout_col'][:, 0] = psf_cen[1]

        if seg""")],
     "an image much higher than wide", "stamps near the upper end of a high image are shifted",
     PRE + """
from metadetect.detect import CatalogMEDSifier
im = np.random.RandomState(0).normal(size=(80, 30))
m = CatalogMEDSifier(mb(obs(im)), np.array([20.0]), np.array([60.0]), np.array([16])).get_meds(0)
a = m.get_cutout(0, 0)
assert np.array_equal(a, im[53:69, 13:29][:, :16]), "another part of the image"
""")

seed("p08-median", "P08", [("metadetect/fitting.py",
     "            wgts[i] = np.median(obs.weight[msk])\n    wgts /= np.sum(wgts)\n",
     "            wgts[i] = np.median(obs.weight)\n    wgts /= max(np.sum(wgts), 1e-300)\n")],
     "a band with many pixels without weight",
     "bands with many masked pixels get less or no part in the coadd",
     PRE + '''
from metadetect.fitting import make_coadd_obs
w = np.ones((20, 20))
w[:14] = 0
a = np.full((20, 20), 3.0)
b = np.full((20, 20), 5.0)
c, f = make_coadd_obs(mb(obs(a, wt=w), obs(b)))
assert f == 0 and np.allclose(c.image, 4.0), c.image[0, 0]
''')

seed("p08-psf-jac", "P08", [("metadetect/fitting.py",
     "            or (repr(fobs.psf.jacobian) != repr(obs.psf.jacobian))\n", "")],
     "bands whose PSFs have different WCS but the same shape",
     "inconsistent PSFs are coadded",
     PRE + '''
from metadetect.fitting import make_coadd_obs
from metadetect import procflags
a, b = obs(np.ones((20, 20))), obs(np.ones((20, 20)))
with b.psf.writeable():
    pass
j = ngmix.DiagonalJacobian(row=5.5, col=6, scale=0.2)
p = ngmix.Observation(b.psf.image, weight=b.psf.weight, jacobian=j)
b = ngmix.Observation(b.image, weight=b.weight, jacobian=b.jacobian, psf=p)
c, f = make_coadd_obs(mb(a, b))
assert c is None and f & procflags.INCONSISTENT_BANDS
''')

seed("p09-psf-norm", "P09", [("metadetect/fitting.py",
     """                                wgt_res[MOMNAME][5]
                                / wgt_res[MOMNAME+"_norm"]
                                / res[MOMNAME][5]
""", """                                wgt_res[MOMNAME][5]
                                / res[MOMNAME][5]
""")],
     "bands whose masks differ, with PSFs of different size",
     "the PSF is averaged over bands with weights that depend on the masked area",
     PRE + """
from metadetect.fitting import fit_mbobs_wavg
y, x = np.mgrid[:13, :13] - 6.0
p1, p2 = np.exp(-(x**2 + y**2)/2/1.3**2), np.exp(-(x**2 + y**2)/2/2.6**2)
im = gal(33, 33, 16, 16, T=6, flux=1000)
w = np.ones(im.shape)
w[:, :13] = 0
w[:, 20:] = 0
w[:13] = 0
w[20:] = 0
f = ngmix.gaussmom.GaussMom(fwhm=1.2)
def T(wa, wb):
    return fit_mbobs_wavg(mbobs=mb(obs(im, wt=wa, psf=p1), obs(im, wt=wb, psf=p2)), fitter=f,
                          bmask_flags=0)["wmom_psf_T"][0]
def norm(w):
    o = obs(im, wt=w)
    r = f.go(o)
    return r["sums"][5]/r["sums_norm"]
one = [fit_mbobs_wavg(mbobs=mb(obs(im, psf=p)), fitter=f, bmask_flags=0)["wmom_psf_T"][0]
       for p in (p1, p2)]
a, b = norm(w), norm(np.ones(im.shape))
want = (a*one[0] + b*one[1])/(a + b)
got = T(w, np.ones(im.shape))
assert abs(got - want) < 1e-3*want, (got, want, one)
""")

seed("p09-nonshear-flags", "P09", [("metadetect/fitting.py",
     "            if wgt <= 0:\n                final_flags |= procflags.ZERO_WEIGHTS\n",
     "            if wgt <= 0 and res is not None:\n                final_flags |= procflags.ZERO_WEIGHTS\n"),
     ("metadetect/fitting.py",
     "            final_flags |= flags\n\n            # we mark missing data or moments",
     "            final_flags |= flags & ~procflags.ZERO_WEIGHTS\n\n            # we mark missing data or moments")],
     "a shear band without any weight, after two cooperating changes",
     "the zero-weight bit is lost from the object and PSF flags",
     PRE + '''
from metadetect.fitting import fit_mbobs_wavg
from metadetect import procflags
im = gal(33, 33, 16, 16, flux=1000)
z = obs(im, wt=np.zeros(im.shape), ignore_zero_weight=False)
r = fit_mbobs_wavg(mbobs=mb(obs(im), z), fitter=ngmix.gaussmom.GaussMom(fwhm=1.2),
                   bmask_flags=0)
assert r["wmom_obj_flags"][0] & procflags.ZERO_WEIGHTS
assert r["wmom_psf_flags"][0] & procflags.ZERO_WEIGHTS
''')

seed("p10-band-order", "P10", [("metadetect/fitting.py",
     '                res["gauss_band_flux"][0, shear_bands] = ores["flux"]\n',
     '                res["gauss_band_flux"][0, sorted(shear_bands)] = ores["flux"]\n')],
     "shear bands that are not in increasing order", "fluxes are assigned to other bands",
     PRE + '''
from metadetect.fitting import fit_mbobs_gauss
m = mb(obs(gal(33, 33, 16, 16, flux=1000)), obs(gal(33, 33, 16, 16, flux=3000)))
r = fit_mbobs_gauss(mbobs=m, bmask_flags=0, rng=np.random.RandomState(1), shear_bands=[1, 0])
f = r["gauss_band_flux"][0]
assert f[1] > 2*f[0], f
''')

seed("p10-psf-mean", "P10", [("metadetect/fitting.py",
     '                res["gauss_psf_g"] = psf_g_sum / psf_T_sum\n',
     '                res["gauss_psf_g"] = psf_g_sum / wgt_sum / pres_T\n'),
     ("metadetect/fitting.py",
     '                            _wgt = np.median(obs.weight[msk])\n                            psf_T_sum += obs',
     '                            _wgt = np.median(obs.weight[msk])\n                            pres_T = obs.psf.meta["result"]["T"]\n                            psf_T_sum += obs')],
     "PSFs of different size in the shear bands",
     "the mean PSF shape is normalized with the size of the last band",
     PRE + '''
from metadetect.fitting import fit_mbobs_gauss
y, x = np.mgrid[:13, :13] - 6.0
p1 = np.exp(-(x**2/1.2 + y**2)/2/1.5**2)
p2 = np.exp(-(x**2/1.2 + y**2)/2/2.2**2)
im = gal(33, 33, 16, 16, T=14, flux=1000)
def run(*b):
    return fit_mbobs_gauss(mbobs=mb(*b), bmask_flags=0, rng=np.random.RandomState(1))
a = run(obs(im, psf=p1))["gauss_psf_g"][0]
b = run(obs(im, psf=p2))["gauss_psf_g"][0]
r = run(obs(im, psf=p1), obs(im, psf=p2))["gauss_psf_g"][0]
assert min(a[0], b[0]) - 0.004 < r[0] < max(a[0], b[0]) + 0.004, (a, b, r)
''')

seed("p11-rotations", "P11", [("metadetect/fitting.py",
     "        for k in [1, 2, 3]:\n            msk = np.rot90(obs.weight, k=k) <= 0\n",
     "        for k in [1, 2]:\n            msk = np.rot90(obs.weight, k=k) <= 0\n")],
     "a hole away from the centre", "the weights miss one rotation of each hole",
     PRE + '''
from metadetect.fitting import symmetrize_obs_weights
w = np.ones((15, 15))
w[2, 5] = 0
s = symmetrize_obs_weights(obs(np.ones((15, 15)), wt=w))
assert (s.weight == 0).sum() == 4 and np.array_equal(s.weight, np.rot90(s.weight))
''')

seed("p12-broadcast", "P12", [("metadetect/fitting.py",
     "                if nobj != _res.shape[0]:\n                    raise RuntimeError(\"All fit results must be the same length!\")\n",
     "                if _res.shape[0] not in (1, nobj):\n                    raise RuntimeError(\"All fit results must be the same length!\")\n")],
     "a one-row table combined with an empty one",
     "the measurement of the only object is lost",
     '''
import numpy as np
from metadetect.fitting import combine_fit_res
a = np.zeros(3, dtype=[("a", "f8"), ("shear_bands", "U6")])[:0]
b = np.ones(1, dtype=[("b", "f8"), ("shear_bands", "U6")])
try:
    combine_fit_res([a, b])
except RuntimeError:
    pass
else:
    raise SystemExit("tables of different length are combined")
''')

seed("p16-names", "P16", [("metadetect/procflags.py",
     'NAME_MAP = copy.deepcopy(ngmix.flags.NAME_MAP)\n',
     'NAME_MAP = ngmix.flags.NAME_MAP\n'),
     ("metadetect/procflags.py", "    NAME_MAP[v] = k\n",
      "    NAME_MAP.setdefault(k, v)\n"),
     ("metadetect/procflags.py", 'NAME_MAP[MISSING_BAND] = "missing data in one or more bands"',
      'NAME_MAP[MISSING_BAND] = NAME_MAP[NO_DATA]')],
     "a missing band", "the text for a missing band is that of missing data",
     '''
from metadetect import procflags as p
assert p.get_procflags_str(p.MISSING_BAND) != p.get_procflags_str(p.NO_DATA)
''')
