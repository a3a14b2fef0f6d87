"""Metacalibration with galsim, following ngmix.metacal.

Beyond ngmix's arguments there is `standin`: 'fast' replaces the
deconvolve/shear/reconvolve step by a bilinear shear of the image, for checks
that only look at bookkeeping around metacal.
"""
import numpy as np
from ..observation import Observation, ObsList, MultiBandObsList
from .. import moments

DEFAULT_STEP = 0.01
METACAL_TYPES = ["noshear", "1p", "1m", "2p", "2m",
                 "1p_psf", "1m_psf", "2p_psf", "2m_psf"]
METACAL_MINIMAL_TYPES = ["noshear", "1p", "1m", "2p", "2m"]
CALLS = []   # record of calls, for the checks
HOOK = None  # for the checks: replaces the computation for multi-band data


def _get_shear(t, step):
    import galsim
    t = t.replace("_psf", "")
    return {
        "noshear": galsim.Shear(g1=0, g2=0),
        "1p": galsim.Shear(g1=step, g2=0), "1m": galsim.Shear(g1=-step, g2=0),
        "2p": galsim.Shear(g1=0, g2=step), "2m": galsim.Shear(g1=0, g2=-step),
    }[t]


def _get_gauss_target_psf(psf, flux):
    import galsim
    dk = psf.stepk/4.0
    small_kval, smaller_kval = 1.0e-2, 3.0e-3
    kim = psf.drawKImage(scale=dk)
    karr_r = kim.real.array
    nk = karr_r.shape[0]
    kx, ky = np.meshgrid(np.arange(-nk/2, nk/2), np.arange(-nk/2, nk/2))
    ksq = (kx**2 + ky**2)*dk**2
    ksq_max = np.min(ksq[karr_r < small_kval*psf.flux])
    sigma_sq = -2.0*np.log(smaller_kval)/ksq_max
    return galsim.Gaussian(sigma=np.sqrt(sigma_sq), flux=flux)


def _get_ellip_dilation(e1, e2, T):
    irr, irc, icc = moments.e2mom(e1, e2, T)
    eigs = np.linalg.eigvalsh(np.array([[irr, irc], [irc, icc]]))
    return np.sqrt(eigs.max()/(T/2.0))


def get_all_metacal(obs, psf="gauss", step=DEFAULT_STEP, fixnoise=True, rng=None,
                    use_noise_image=False, types=None, standin=None):
    types = METACAL_MINIMAL_TYPES if types is None else types
    if HOOK is not None and isinstance(obs, MultiBandObsList):
        return HOOK(obs, psf=psf, step=step, fixnoise=fixnoise, rng=rng,
                    use_noise_image=use_noise_image, types=types)
    for t in types:
        if t not in METACAL_TYPES:
            raise ValueError("bad metacal type: '%s'" % t)
    if fixnoise and not use_noise_image and rng is None:
        raise ValueError("send an rng to use fixnoise")
    CALLS.append({"step": step, "types": list(types), "psf": str(psf)})
    if isinstance(obs, Observation):
        return _one(obs, psf, step, fixnoise, rng, use_noise_image, types, standin)
    if isinstance(obs, ObsList):
        new = {t: ObsList(meta=dict(obs.meta)) for t in types}
        for o in obs:
            d = get_all_metacal(o, psf, step, fixnoise, rng, use_noise_image,
                                types, standin)
            for t in types:
                new[t].append(d[t])
        return new
    if isinstance(obs, MultiBandObsList):
        new = {t: MultiBandObsList(meta=dict(obs.meta)) for t in types}
        for ol in obs:
            d = get_all_metacal(ol, psf, step, fixnoise, rng, use_noise_image,
                                types, standin)
            for t in types:
                new[t].append(d[t])
        return new
    raise ValueError("obs must be Observation, ObsList, or MultiBandObsList")


def _one(obs, psf, step, fixnoise, rng, use_noise_image, types, standin):
    nim = None
    if fixnoise:
        if use_noise_image:
            nim = obs.noise.copy()
        else:
            w = obs.weight
            err = np.zeros(w.shape)
            err[w > 0] = 1/np.sqrt(w[w > 0])
            nim = rng.normal(size=w.shape)*err
        nim = np.rot90(nim, k=1)
    if standin == "fast":
        mk = _FastMaker(obs, step)
    else:
        mk = _Maker(obs, psf, step, rng)
    out = {}
    for t in types:
        im, pim = mk.make(obs.image, t)
        new = obs.copy()
        new.psf = Observation(pim, weight=np.full(pim.shape, 1e8),
                              jacobian=obs.psf.jacobian)
        w = obs.weight.copy()
        if nim is not None:
            n, _ = mk.make(nim, t)
            im = im + np.rot90(n, k=3)
            w[w > 0] *= 0.5
        with new.writeable():
            new.image[:, :] = im
            new.weight[:, :] = w
        out[t] = new
    return out


class _FastMaker:
    def __init__(self, obs, step):
        self.obs, self.step = obs, step

    def make(self, image, t):
        from scipy.ndimage import affine_transform
        if t == "noshear" or t.endswith("_psf"):
            im = np.array(image)
        else:
            j = self.obs.jacobian
            A = _get_shear(t, self.step).getMatrix()   # acts on (u, v)
            J = np.array([[j.dudrow, j.dudcol], [j.dvdrow, j.dvdcol]])
            M = np.linalg.inv(J) @ np.linalg.inv(A) @ J
            cen = (np.array(image.shape) - 1)/2
            im = affine_transform(np.array(image), M, offset=cen - M @ cen, order=1)
        return im, self.obs.psf.image.copy()


class _Maker:
    def __init__(self, obs, psf, step, rng):
        import galsim
        self.obs, self.step = obs, step
        self.wcs = obs.jacobian.get_galsim_wcs()
        self.pwcs = obs.psf.jacobian.get_galsim_wcs()
        pim = galsim.Image(np.array(obs.psf.image), wcs=self.pwcs)
        self.psf_int = galsim.InterpolatedImage(pim, x_interpolant="lanczos15")
        self.inv = galsim.Deconvolve(self.psf_int)
        flux = self.psf_int.flux
        dil = 1.0 + 2.0*step
        if isinstance(psf, str):
            if psf == "gauss":
                t = _get_gauss_target_psf(self.psf_int, flux).dilate(dil)
            elif psf == "fitgauss":
                from ..admom import AdmomFitter
                from ..guessers import GMixPSFGuesser
                from ..runners import run_fitter
                from ..gexceptions import BootPSFFailure
                import galsim as gs
                res = run_fitter(obs.psf, AdmomFitter(rng=rng),
                                 GMixPSFGuesser(rng=rng, ngauss=1), ntry=4)
                if res["flags"] != 0:
                    raise BootPSFFailure("failed to fit psf")
                e1, e2 = res["e"]
                T = res["T"]
                t = gs.Gaussian(sigma=np.sqrt(T/2), flux=flux).dilate(
                    _get_ellip_dilation(e1, e2, T)).dilate(dil)
            elif psf == "dilate":
                t = self.psf_int.dilate(dil)
            else:
                raise ValueError("bad psf type '%s'" % psf)
        else:
            t = psf
        self.target = t

    def make(self, image, typ):
        import galsim
        sh = _get_shear(typ, self.step)
        target = self.target
        gim = galsim.Image(np.array(image), wcs=self.wcs)
        obj = galsim.Convolve(
            galsim.InterpolatedImage(gim, x_interpolant="lanczos15"), self.inv)
        if typ.endswith("_psf"):
            target = target.shear(sh)
        elif typ != "noshear":
            obj = obj.shear(sh)
        ny, nx = image.shape
        im = galsim.Convolve(obj, target).drawImage(
            image=galsim.ImageD(nx, ny, wcs=self.wcs), method="no_pixel").array
        pny, pnx = self.obs.psf.image.shape
        # the psf image keeps the centring of its jacobian
        pj = self.obs.psf.jacobian
        pim = target.drawImage(
            image=galsim.ImageD(pnx, pny, wcs=self.pwcs), method="no_pixel",
            offset=(pj.col0 - (pnx - 1)/2, pj.row0 - (pny - 1)/2)).array
        return np.array(im, dtype="f8"), np.array(pim, dtype="f8")
