import numpy as np
from . import flags as _f
from .flags import get_flags_str

_FAC = 2*np.sqrt(2*np.log(2))


def fwhm_to_sigma(fwhm):
    return fwhm/_FAC


def fwhm_to_T(fwhm):
    sigma = fwhm_to_sigma(fwhm)
    return 2*sigma**2


def sigma_to_fwhm(sigma):
    return sigma*_FAC


def T_to_fwhm(T):
    return sigma_to_fwhm(np.sqrt(T/2))


def get_ratio_error(a, b, var_a, var_b, cov_ab):
    var = get_ratio_var(a, b, var_a, var_b, cov_ab)
    if not var >= 0:
        return np.nan
    return np.sqrt(var)


def get_ratio_var(a, b, var_a, var_b, cov_ab):
    if b == 0:
        raise ValueError("zero in denominator")
    rsq = (a/b)**2
    if a == 0:
        # limit of rsq*var_a/a^2
        return var_a/b**2 + rsq*(var_b/b**2)
    return rsq*(var_a/a**2 + var_b/b**2 - 2*cov_ab/(a*b))


def make_mom_result(sums, sums_cov, sums_norm=None):
    """moments [v, u, M1, M2, MT, MF] -> result dict (as in ngmix >= 2.1)"""
    sums = np.asarray(sums)
    sums_cov = np.asarray(sums_cov)
    if sums.shape[0] < 6:
        raise ValueError("need 6 moments")
    m1, m2, mt, mf = 2, 3, 4, 5
    res = {}
    res["flags"] = 0
    res["flagstr"] = ""
    res["flux"] = sums[mf]
    res["sums"] = sums
    res["sums_cov"] = sums_cov
    res["sums_norm"] = sums_norm if sums_norm is not None else np.nan
    res["flux_flags"] = 0
    res["flux_flagstr"] = ""
    res["T_flags"] = 0
    res["T_flagstr"] = ""
    res["flux_err"] = np.nan
    res["T"] = np.nan
    res["T_err"] = np.nan
    res["s2n"] = np.nan
    res["e1"] = np.nan
    res["e2"] = np.nan
    res["e"] = np.array([np.nan, np.nan])
    res["e_err"] = np.array([np.nan, np.nan])
    res["e_cov"] = np.diag([np.nan, np.nan])
    res["sums_err"] = np.full(sums.size, np.nan)

    if sums_cov[mf, mf] > 0:
        res["flux_err"] = np.sqrt(sums_cov[mf, mf])
        res["s2n"] = res["flux"]/res["flux_err"]
    else:
        res["flux_flags"] |= _f.NONPOS_VAR

    if sums_cov[mf, mf] > 0 and sums_cov[mt, mt] > 0:
        if sums[mf] > 0:
            res["T"] = sums[mt]/sums[mf]
            res["T_err"] = get_ratio_error(
                sums[mt], sums[mf], sums_cov[mt, mt], sums_cov[mf, mf],
                sums_cov[mt, mf])
        else:
            res["T_flags"] |= _f.NONPOS_FLUX
    else:
        res["T_flags"] |= _f.NONPOS_VAR

    d = np.diagonal(sums_cov)[:6]
    if np.all(d[2:] > 0):
        res["sums_err"] = np.sqrt(np.diagonal(sums_cov))
    else:
        res["flags"] |= _f.NONPOS_VAR

    if res["flags"] == 0:
        if res["flux"] > 0:
            if sums[mt] > 0:
                res["e1"] = sums[m1]/sums[mt]
                res["e2"] = sums[m2]/sums[mt]
                res["e"] = np.array([res["e1"], res["e2"]])
                e_err = np.zeros(2)
                for i, m in enumerate((m1, m2)):
                    e_err[i] = get_ratio_error(
                        sums[m], sums[mt], sums_cov[m, m], sums_cov[mt, mt],
                        sums_cov[m, mt])
                if np.all(np.isfinite(e_err)):
                    res["e_err"] = e_err
                    res["e_cov"] = np.diag(e_err**2)
                else:
                    res["e1"] = np.nan
                    res["e2"] = np.nan
                    res["e"] = np.array([np.nan, np.nan])
                    res["flags"] |= _f.NONPOS_SHAPE_VAR
            else:
                res["flags"] |= _f.NONPOS_SIZE
        else:
            res["flags"] |= _f.NONPOS_FLUX

    res["flagstr"] = get_flags_str(res["flags"])
    res["flux_flagstr"] = get_flags_str(res["flux_flags"])
    res["T_flagstr"] = get_flags_str(res["T_flags"])
    return res
