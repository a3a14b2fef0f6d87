import numpy as np
from . import flags as _f

MOMENTS_NAME_MAP = {"Mv": 0, "Mu": 1, "M1": 2, "M2": 3, "MT": 4, "MF": 5}


def fwhm_to_sigma(fwhm):
    return fwhm / 2.3548200450309493


def sigma_to_fwhm(sigma):
    return sigma * 2.3548200450309493


def fwhm_to_T(fwhm):
    return 2 * fwhm_to_sigma(fwhm)**2


def T_to_fwhm(T):
    return sigma_to_fwhm(np.sqrt(T/2))


def T_to_sigma(T):
    return np.sqrt(T/2)


def e2mom(e1, e2, T):
    Tover2 = 0.5*T
    Mcc = Tover2*(1 + e1)
    Mrc = Tover2*e2
    Mrr = Tover2*(1 - e1)
    return Mrr, Mrc, Mcc


def get_ratio_var(a, b, var_a, var_b, cov_ab):
    if b == 0:
        raise ValueError("zero in denominator")
    rsq = (a/b)**2
    return rsq * (var_a/a**2 + var_b/b**2 - 2*cov_ab/(a*b)) if a != 0 \
        else var_a/b**2


def get_ratio_error(a, b, var_a, var_b, cov_ab):
    var = get_ratio_var(a, b, var_a, var_b, cov_ab)
    if var < 0 or not np.isfinite(var):
        return np.nan
    return np.sqrt(var)


def make_mom_result(sums, sums_cov, sums_norm=None):
    mv, mu, m1, m2, mt, mf = range(6)
    res = {
        "flags": 0, "flagstr": "",
        "flux": sums[mf], "sums": sums, "sums_cov": sums_cov,
        "sums_norm": np.nan if sums_norm is None else sums_norm,
        "flux_flags": 0, "flux_flagstr": "",
        "T_flags": 0, "T_flagstr": "",
        "flux_err": np.nan, "s2n": np.nan, "T": np.nan, "T_err": np.nan,
        "pars": np.full(6, np.nan),
        "e1": np.nan, "e2": np.nan,
        "e": np.array([np.nan, np.nan]),
        "e_err": np.array([np.nan, np.nan]),
        "e_cov": np.diag([np.nan, np.nan]),
        "sums_err": np.full(6, np.nan),
    }
    dvar = np.diagonal(sums_cov)
    if dvar[mf] > 0:
        res["flux_err"] = np.sqrt(dvar[mf])
        res["s2n"] = res["flux"] / res["flux_err"]
    else:
        res["flux_flags"] |= _f.NONPOS_VAR
    if dvar[mf] > 0 and dvar[mt] > 0:
        if sums[mf] > 0:
            res["T"] = sums[mt] / sums[mf]
            res["T_err"] = get_ratio_error(
                sums[mt], sums[mf], sums_cov[mt, mt], sums_cov[mf, mf],
                sums_cov[mt, mf])
        else:
            res["T_flags"] |= _f.NONPOS_FLUX
    else:
        res["T_flags"] |= _f.NONPOS_VAR
    if np.all(dvar > 0):
        res["sums_err"] = np.sqrt(dvar)
    else:
        res["flags"] |= _f.NONPOS_VAR
    if sums[mf] <= 0:
        res["flags"] |= _f.NONPOS_FLUX
    if not (sums[mt] > 0):
        res["flags"] |= _f.NONPOS_SIZE
    res["flags"] |= res["flux_flags"] | res["T_flags"]
    if res["flags"] == 0:
        f = sums[mf]
        res["pars"] = np.array(
            [sums[mv]/f, sums[mu]/f, sums[m1]/f, sums[m2]/f, sums[mt]/f, f])
        e1 = sums[m1]/sums[mt]
        e2 = sums[m2]/sums[mt]
        err1 = get_ratio_error(
            sums[m1], sums[mt], sums_cov[m1, m1], sums_cov[mt, mt],
            sums_cov[m1, mt])
        err2 = get_ratio_error(
            sums[m2], sums[mt], sums_cov[m2, m2], sums_cov[mt, mt],
            sums_cov[m2, mt])
        res["e1"], res["e2"] = e1, e2
        res["e"] = np.array([e1, e2])
        res["e_err"] = np.array([err1, err2])
        res["e_cov"] = np.diag([err1**2, err2**2])
        if not np.all(np.isfinite(res["e_err"])):
            res["flags"] |= _f.NONPOS_SHAPE_VAR
            res["e1"] = res["e2"] = np.nan
            res["e"] = np.array([np.nan, np.nan])
    res["flagstr"] = _f.get_flags_str(res["flags"])
    res["flux_flagstr"] = _f.get_flags_str(res["flux_flags"])
    res["T_flagstr"] = _f.get_flags_str(res["T_flags"])
    return res
