"""pre-PSF moments: deconvolved, windowed in Fourier space"""
import numpy as np
from .moments import fwhm_to_sigma, make_mom_result


class PrePSFMom:
    kind = "prepsf"

    def __init__(self, fwhm, kernel="pgauss", pad_factor=4, ap_rad=1.5,
                 fwhm_smooth=0):
        self.fwhm = fwhm
        self.fwhm_smooth = fwhm_smooth
        self.pad_factor = pad_factor
        self.ap_rad = ap_rad
        self.kernel = kernel
        self.kind = kernel

    def go(self, obs, return_kernels=False, no_psf=False):
        psf = None
        if not no_psf:
            if not obs.has_psf():
                raise RuntimeError("the PSF must be set to measure a pre-PSF moment")
            psf = obs.psf
        sums, cov = self._measure(obs, psf)
        return make_mom_result(sums, cov)

    def _measure(self, obs, psf):
        jac = obs.jacobian
        n = max(obs.image.shape)
        if psf is not None:
            n = max(n, max(psf.image.shape))
        N = int(2**np.ceil(np.log2(2*n)))
        kr = 2*np.pi*np.fft.fftfreq(N)
        krow, kcol = np.meshgrid(kr, kr, indexing="ij")
        # (krow, kcol) = J^T (kv, ku)
        det = jac.det
        kv = (jac.dudcol*krow - jac.dudrow*kcol)/det
        ku = (-jac.dvdcol*krow + jac.dvdrow*kcol)/det

        def ft(im, j):
            f = np.fft.fft2(im, s=(N, N))
            return f*np.exp(1j*(krow*j.row0 + kcol*j.col0))

        im = np.where(obs.weight > 0, obs.image, 0.0)
        fim = ft(im, jac)
        sigma = fwhm_to_sigma(self.fwhm)
        k2 = kv**2 + ku**2
        if self.kernel == "pgauss":
            a = sigma**2
            W = 2*np.pi*sigma**2*np.exp(-0.5*a*k2)
            Fu2 = (a - a**2*ku**2)
            Fv2 = (a - a**2*kv**2)
            Fuv = -a**2*ku*kv
        else:
            kmax = np.sqrt(2.0*4)/sigma
            x = np.sqrt(k2)/kmax
            W = np.where(x < 1, (1 - x**2)**4, 0.0)*2*np.pi*sigma**2
            c = 8.0/kmax**2
            Fu2 = c - c**2*ku**2
            Fv2 = c - c**2*kv**2
            Fuv = -c**2*ku*kv
        sm = fwhm_to_sigma(self.fwhm_smooth) if self.fwhm_smooth else 0.0
        W = W*np.exp(-0.5*sm**2*k2)
        if psf is not None:
            pj = psf.jacobian
            fpsf = ft(psf.image, pj)
            fpsf = np.where(np.abs(fpsf) > 1.0e-5*np.abs(fpsf).max(), fpsf, np.inf)
            inv = 1.0/fpsf
        else:
            inv = np.ones_like(fim)
        ks = np.array([W*0, W*0, W*(Fu2 - Fv2), W*2*Fuv, W*(Fu2 + Fv2), W])
        norm = 1.0/(N*N)/jac.area
        f = fim*inv
        sums = np.array([(k*f).real.sum()*norm for k in ks])
        w = obs.weight[obs.weight > 0]
        tot_var = (1.0/w).sum()
        p2 = (np.abs(inv)**2)
        cov = np.zeros((6, 6))
        for i in range(6):
            for j in range(6):
                cov[i, j] = (ks[i]*ks[j]*p2).sum()*norm**2*tot_var
        cov[0, 0] = cov[1, 1] = cov[5, 5]
        return sums, cov


class KSigmaMom(PrePSFMom):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm, "ksigma", pad_factor, ap_rad, fwhm_smooth)


class PGaussMom(PrePSFMom):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm, "pgauss", pad_factor, ap_rad, fwhm_smooth)


PrePSFGaussMom = PGaussMom
