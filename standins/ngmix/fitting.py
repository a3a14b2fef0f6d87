import numpy as np
from scipy.optimize import leastsq
from . import flags as F
from .gmix import GMixModel
from .gexceptions import GMixRangeError
from .observation import get_mb_obs

BAD = 9.999e9


class FitModel(dict):
    def get_gmix(self, band=None):
        if self["flags"] != 0:
            raise RuntimeError("fit failed")
        p = list(self["pars"][:5]) + [self["pars"][5 + (band or 0)]]
        return GMixModel(p, "gauss")


class Fitter:
    kind = "gauss"

    def __init__(self, model, prior=None, fit_pars=None):
        assert model == "gauss"
        self.model, self.prior = model, prior
        self.fit_pars = dict(fit_pars or {})

    def go(self, obs, guess):
        mb = get_mb_obs(obs)
        nband = len(mb)
        guess = np.array(guess, dtype="f8")
        if guess.size != 5 + nband:
            raise ValueError("guess has wrong size")
        if self.prior is not None and self.prior.nband != nband:
            raise ValueError("prior has nband %d, data %d" % (
                self.prior.nband, nband))
        data = [(b, o) for b, ol in enumerate(mb) for o in ol]
        for b, o in data:
            if o.has_psf() and not o.has_psf_gmix():
                raise RuntimeError("psf gmix not set")
        npix = sum(o.pixels.size for b, o in data)
        npr = 4 + nband if self.prior is not None else 0

        def fdiff(pars):
            out = []
            try:
                if self.prior is not None:
                    out.append(self.prior.fdiff(pars))
                for b, o in data:
                    gm = GMixModel(list(pars[:5]) + [pars[5 + b]], "gauss")
                    if o.has_psf():
                        gm = gm.convolve(o.psf.gmix)
                    p = o.pixels
                    out.append((gm.evaluate(p["v"], p["u"])*p["area"]
                                - p["val"])*p["ierr"])
            except GMixRangeError:
                return np.full(npix + npr, BAD)
            return np.hstack(out)

        res = FitModel(flags=0, model="gauss", nband=nband)
        kw = {k: self.fit_pars[k] for k in ("maxfev", "ftol", "xtol")
              if k in self.fit_pars}
        pars, cov, info, msg, ier = leastsq(
            fdiff, guess, full_output=True, **kw)
        cov = None
        if np.all(np.isfinite(pars)):
            # minpack's own forward differences degenerate for parameters ~1e-12
            h = 1.0e-6*np.maximum(np.abs(pars), 1.0e-2)
            jac = np.array([(fdiff(pars + d) - fdiff(pars - d))/(2*d.max())
                            for d in np.diag(h)])
            try:
                cov = np.linalg.inv(jac @ jac.T)
            except np.linalg.LinAlgError:
                cov = None
        flags = 0
        if ier > 4 or ier == 0:
            flags |= F.MAXITER
        if cov is None:
            flags |= F.LM_SINGULAR_MATRIX
        elif not np.all(np.isfinite(cov)):
            flags |= F.EIG_NOTFINITE
        elif np.any(np.diag(cov) <= 0):
            flags |= F.LM_NEG_COV_DIAG
        if np.any(info["fvec"] >= BAD/2):
            flags |= F.LM_FUNC_NOTFINITE
        if npix - pars.size <= 0:
            flags |= F.ZERO_DOF
        res["flags"] = flags
        res["pars"] = pars
        res["errmsg"] = msg
        if flags == 0:
            res["pars_cov"] = cov
            res["pars_err"] = np.sqrt(np.diag(cov))
            res["g"], res["g_cov"] = pars[2:4].copy(), cov[2:4, 2:4].copy()
            res["g_err"] = res["pars_err"][2:4]
            res["T"], res["T_err"] = pars[4], res["pars_err"][4]
            num = den = 0.0
            for b, o in data:
                gm = GMixModel(list(pars[:5]) + [pars[5 + b]], "gauss")
                if o.has_psf():
                    gm = gm.convolve(o.psf.gmix)
                p = o.pixels
                m = gm.evaluate(p["v"], p["u"])*p["area"]
                num += (m*p["val"]*p["ierr"]**2).sum()
                den += (m*m*p["ierr"]**2).sum()
            res["s2n"] = res["s2n_w"] = num/np.sqrt(den) if den > 0 else -9999.0
            if nband == 1:
                res["flux"], res["flux_err"] = pars[5], res["pars_err"][5]
                res["flux_cov"] = cov[5, 5]
            else:
                res["flux"] = pars[5:].copy()
                res["flux_err"] = res["pars_err"][5:].copy()
                res["flux_cov"] = cov[5:, 5:].copy()
        return res
