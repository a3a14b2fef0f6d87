import numpy as np
from .gexceptions import GMixRangeError
from .shape import g1g2_to_e1e2, e1e2_to_g1g2


class GMix:
    """one gaussian is all metadetect needs; pars = row, col, irr, irc, icc, p"""
    def __init__(self, row, col, irr, irc, icc, p):
        self.row, self.col = row, col
        self.irr, self.irc, self.icc, self.p = irr, irc, icc, p
        self.det = irr*icc - irc**2
        if self.det < 1.0e-200 or not np.isfinite(self.det):
            raise GMixRangeError("det too low: %g" % self.det)

    def copy(self):
        return GMix(self.row, self.col, self.irr, self.irc, self.icc, self.p)

    def get_T(self):
        return self.irr + self.icc

    def get_cen(self):
        return self.row, self.col

    def get_flux(self):
        return self.p

    def get_e1e2T(self):
        T = self.get_T()
        return (self.icc - self.irr)/T, 2*self.irc/T, T

    def get_g1g2T(self):
        e1, e2, T = self.get_e1e2T()
        g1, g2 = e1e2_to_g1g2(e1, e2)
        return g1, g2, T

    def convolve(self, psf):
        return GMix(self.row, self.col, self.irr + psf.irr,
                    self.irc + psf.irc, self.icc + psf.icc, self.p)

    def evaluate(self, v, u):
        dv, du = v - self.row, u - self.col
        chi2 = (self.icc*dv**2 + self.irr*du**2 - 2*self.irc*dv*du)/self.det
        return self.p*np.exp(-0.5*chi2)/(2*np.pi*np.sqrt(self.det))

    def get_weighted_sums(self, obs, maxrad, res=None, with_higher_order=False):
        p = obs.pixels
        v, u = p["v"] - self.row, p["u"] - self.col
        k = v**2 + u**2 < maxrad**2
        v, u, val, ierr = v[k], u[k], p["val"][k], p["ierr"][k]
        wt = self.evaluate(v + self.row, u + self.col)
        F = np.array([p["v"][k], p["u"][k], u**2 - v**2, 2*u*v, u**2 + v**2,
                      np.ones_like(u)])
        with np.errstate(all="ignore"):
            var = 1.0/ierr**2
        wd = wt*val
        return {
            "flags": 0, "npix": int(k.sum()), "wsum": wt.sum(),
            "sums": F @ wd,
            "sums_cov": (F*(wt**2*var)) @ F.T,
        }


def GMixModel(pars, model="gauss"):
    assert model == "gauss", model
    e1, e2 = g1g2_to_e1e2(pars[2], pars[3])
    T, F = pars[4], pars[5]
    return GMix(pars[0], pars[1], T/2*(1 - e1), T/2*e2, T/2*(1 + e1), F)
