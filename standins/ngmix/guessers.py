import numpy as np
from .gmix import GMix, GMixModel
from .moments import fwhm_to_T


def _moments_T_flux(obs):
    w = obs.weight > 0
    rows, cols = np.nonzero(w)
    j = obs.jacobian
    v, u = j.get_vu(rows, cols)
    T0 = (4*j.get_scale())**2
    for _ in range(20):
        wt = np.exp(-0.5*(v**2 + u**2)/(T0/2))
        im = obs.image[rows, cols]*wt
        s = im.sum()
        if s <= 0:
            return None
        Tm = (im*(v**2 + u**2)).sum()/s
        if Tm <= 0 or 1/Tm - 1/T0 <= 0:
            return None
        Tn = 1/(1/Tm - 1/T0)
        if abs(Tn/T0 - 1) < 1e-3:
            break
        T0 = Tn
    return T0, obs.image[rows, cols].sum()


class GMixPSFGuesser:
    def __init__(self, rng, ngauss, guess_from_moms=False):
        assert ngauss == 1
        self.rng, self.guess_from_moms = rng, guess_from_moms

    def _T_flux(self, obs):
        mom = _moments_T_flux(obs) if self.guess_from_moms else None
        if mom is None:
            return fwhm_to_T(obs.jacobian.get_scale()*3.5), obs.image.sum()
        return mom

    def __call__(self, obs):
        T, flux = self._T_flux(obs)
        r = self.rng
        s = 0.1*obs.jacobian.get_scale()
        e1, e2 = r.uniform(-0.01, 0.01, size=2)
        T = T*r.uniform(0.9, 1.1)
        return GMix(r.uniform(-s, s), r.uniform(-s, s), T/2*(1 - e1), T/2*e2,
                    T/2*(1 + e1), flux)


class SimplePSFGuesser(GMixPSFGuesser):
    def __init__(self, rng, guess_from_moms=False):
        super().__init__(rng, 1, guess_from_moms)

    def __call__(self, obs):
        T, flux = self._T_flux(obs)
        r = self.rng
        s = 0.1*obs.jacobian.get_scale()
        return np.array([
            r.uniform(-s, s), r.uniform(-s, s),
            r.uniform(-0.01, 0.01), r.uniform(-0.01, 0.01),
            T*r.uniform(0.9, 1.1), flux*r.uniform(0.9, 1.1)])


class TPSFFluxGuesser:
    def __init__(self, rng, T, prior=None):
        self.rng, self.T, self.prior = rng, T, prior

    def __call__(self, obs):
        r = self.rng
        j = obs[0][0].jacobian
        s = 0.01*j.get_scale()
        g = [r.uniform(-s, s), r.uniform(-s, s), r.uniform(-0.02, 0.02),
             r.uniform(-0.02, 0.02), self.T*r.uniform(0.9, 1.1)]
        for ol in obs:
            num = den = 0.0
            for o in ol:
                pg = o.psf.gmix
                m = GMixModel([0, 0, 0, 0, 1e-3, 1.0]).convolve(pg)
                p = o.pixels
                mod = m.evaluate(p["v"], p["u"])*p["area"]
                w = p["ierr"]**2
                num += (mod*p["val"]*w).sum()
                den += (mod*mod*w).sum()
            f = num/den if den > 0 else 1.0
            g.append(f*r.uniform(0.95, 1.05))
        return np.array(g)
