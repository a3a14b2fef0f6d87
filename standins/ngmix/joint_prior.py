import numpy as np
from .gexceptions import GMixRangeError


class PriorSimpleSep:
    def __init__(self, cen_prior, g_prior, T_prior, F_prior):
        self.cen_prior, self.g_prior, self.T_prior = cen_prior, g_prior, T_prior
        self.F_priors = F_prior if isinstance(F_prior, (list, tuple)) else [F_prior]
        self.nband = len(self.F_priors)

    def fdiff(self, pars):
        d = list(self.cen_prior.diff(pars[0], pars[1]))
        lp = self.g_prior.get_lnprob_scalar2d(pars[2], pars[3])
        d.append(np.sqrt(max(-2*lp, 0.0)))
        d.append(self.T_prior.get_fdiff(pars[4]))
        for F, pr in zip(pars[5:], self.F_priors):
            d.append(pr.get_fdiff(F))
        return np.array(d)

    def in_range(self, pars):
        try:
            return np.all(np.isfinite(self.fdiff(pars)))
        except GMixRangeError:
            return False
