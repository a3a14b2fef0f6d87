import numpy as np
from . import flags as F
from .gmix import GMix
from .moments import get_ratio_error


class AdmomResult(dict):
    def get_gmix(self):
        if self["flags"] != 0:
            raise RuntimeError("fit failed")
        p = self["pars"]
        T, M1, M2 = p[4], p[2], p[3]
        return GMix(p[0], p[1], 0.5*(T - M1), 0.5*M2, 0.5*(T + M1), 1.0)


class AdmomFitter:
    kind = "am"

    def __init__(self, maxiter=200, shiftmax=5.0, etol=1.0e-5, Ttol=1.0e-3,
                 cenonly=False, rng=None):
        self.maxiter, self.shiftmax = maxiter, shiftmax
        self.etol, self.Ttol, self.rng = etol, Ttol, rng

    def go(self, obs, guess=None):
        if guess is None:
            guess = 0.5
        if not isinstance(guess, GMix):
            T = float(guess)
            guess = GMix(0.0, 0.0, T/2, 0.0, T/2, 1.0)
        return self._run(obs, guess)

    def _run(self, obs, wt):
        p = obs.pixels
        v, u, val = p["v"], p["u"], p["val"]
        with np.errstate(all="ignore"):
            var = np.where(p["ierr"] > 0, 1/np.maximum(p["ierr"], 1e-300)**2, 0.0)
        row, col = wt.row, wt.col
        r0, c0 = row, col
        irr, irc, icc = wt.irr, wt.irc, wt.icc
        res = AdmomResult(flags=0, numiter=0)
        flags, e1o, e2o, To = 0, -9999.0, -9999.0, -9999.0
        sums = np.full(7, np.nan)
        cov = np.full((7, 7), np.nan)
        pars = np.full(6, np.nan)
        done = False
        wsum = np.nan

        def weight(row, col):
            det = irr*icc - irc**2
            dv, du = v - row, u - col
            chi2 = (icc*dv**2 + irr*du**2 - 2*irc*dv*du)/det
            return dv, du, np.where(chi2 < 25, np.exp(-0.5*chi2), 0.0), chi2

        for it in range(self.maxiter):
            if irr*icc - irc**2 < 1.0e-200:
                flags |= F.LOW_DET
                break
            dv, du, w, chi2 = weight(row, col)
            wd = w*val
            s5 = wd.sum()
            if not s5 > 0:
                flags |= F.NONPOS_FLUX
                break
            row, col = (wd*v).sum()/s5, (wd*u).sum()/s5
            if abs(row - r0) > self.shiftmax or abs(col - c0) > self.shiftmax:
                flags |= F.CEN_SHIFT
                break
            dv, du, w, chi2 = weight(row, col)
            wd = w*val
            Fm = np.array([v, u, du**2 - dv**2, 2*du*dv, du**2 + dv**2,
                           np.ones_like(u), chi2**2])
            sums = Fm @ wd
            cov = (Fm*(w**2*var)) @ Fm.T
            wsum = w.sum()
            if not sums[5] > 0:
                flags |= F.NONPOS_FLUX
                break
            M1, M2, T = sums[2]/sums[5], sums[3]/sums[5], sums[4]/sums[5]
            if not T > 0:
                flags |= F.NONPOS_SIZE
                break
            e1, e2 = (icc - irr)/(icc + irr), 2*irc/(icc + irr)
            if (abs(e1 - e1o) < self.etol and abs(e2 - e2o) < self.etol
                    and abs(T/To - 1) < self.Ttol):
                pars = np.array([row, col, icc - irr, 2*irc, icc + irr, sums[5]])
                done = True
                break
            e1o, e2o, To = e1, e2, T
            Irr, Icc, Irc = 0.5*(T - M1), 0.5*(T + M1), 0.5*M2
            dm = Irr*Icc - Irc**2
            if dm <= 1.0e-200:
                flags |= F.LOW_DET
                break
            dw = irr*icc - irc**2
            Nrr, Ncc, Nrc = Icc/dm - icc/dw, Irr/dm - irr/dw, -Irc/dm + irc/dw
            dn = Nrr*Ncc - Nrc**2
            if dn <= 1.0e-200:
                flags |= F.LOW_DET
                break
            irr, icc, irc = Ncc/dn, Nrr/dn, -Nrc/dn
        else:
            flags |= F.MAXITER
        res["numiter"] = it + 1
        res["pars"] = pars
        res.update(sums=sums, sums_cov=cov, wsum=wsum, sums_norm=wsum)
        res["flux_flags"], res["T_flags"] = 0, 0
        for n in ("flux", "flux_err", "T", "T_err", "s2n", "e1", "e2", "rho4",
                  "e1err", "e2err"):
            res[n] = np.nan
        res["rho4"] = 2.0
        res["e"] = np.array([np.nan, np.nan])
        res["e_err"] = np.array([np.nan, np.nan])
        res["e_cov"] = np.diag([np.nan, np.nan])
        res["flux_mean"] = np.nan
        if done:
            fvar = cov[5, 5]
            res["flux"] = res["flux_mean"] = sums[5]/wsum
            if fvar > 0:
                res["flux_err"] = np.sqrt(fvar)/wsum
                res["s2n"] = sums[5]/np.sqrt(fvar)
            else:
                flags |= F.NONPOS_VAR
                res["flux_flags"] |= F.NONPOS_VAR
            if cov[4, 4] > 0 and fvar > 0:
                res["T"] = pars[4]
                res["T_err"] = 4*get_ratio_error(
                    sums[4], sums[5], cov[4, 4], cov[5, 5], cov[4, 5])
            else:
                res["T_flags"] |= F.NONPOS_VAR
                flags |= F.NONPOS_VAR
            if flags == 0:
                e1, e2 = pars[2]/pars[4], pars[3]/pars[4]
                res["e1"], res["e2"] = e1, e2
                er1 = 2*get_ratio_error(
                    sums[2], sums[4], cov[2, 2], cov[4, 4], cov[2, 4])
                er2 = 2*get_ratio_error(
                    sums[3], sums[4], cov[3, 3], cov[4, 4], cov[3, 4])
                if np.isfinite(er1) and np.isfinite(er2):
                    res["e"] = np.array([e1, e2])
                    res["e_err"] = np.array([er1, er2])
                    res["e1err"], res["e2err"] = er1, er2
                    res["e_cov"] = np.diag([er1**2, er2**2])
                else:
                    flags |= F.NONPOS_SHAPE_VAR
        else:
            res["T_flags"] |= flags
            res["flux_flags"] |= flags
        res["flags"] = flags
        for n in ("flags", "T_flags", "flux_flags"):
            res[n.replace("flags", "flagstr")] = F.get_flags_str(res[n])
        return res


def run_admom(obs, guess, **kw):
    return AdmomFitter(**kw).go(obs, guess)
