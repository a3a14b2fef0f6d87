import numpy as np
from .gmix import GMixModel
from .moments import fwhm_to_T, make_mom_result


class GaussMom:
    kind = "wmom"

    def __init__(self, fwhm, with_higher_order=False):
        self.fwhm = fwhm
        T = fwhm_to_T(fwhm)
        w = GMixModel([0, 0, 0, 0, T, 1.0], "gauss")
        # normalised so the weight peaks at one
        w.p = 2*np.pi*np.sqrt(w.det)
        self.weight = w

    def go(self, obs):
        r = self.weight.get_weighted_sums(obs, 1.0e9)
        res = make_mom_result(r["sums"], r["sums_cov"], sums_norm=r["wsum"])
        res["wsum"] = r["wsum"]
        res["npix"] = r["npix"]
        return res
