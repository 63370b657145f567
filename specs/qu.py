"""reference definitions of the polarised-spectrum models (Burn 1966; Sokoloff et al. 1998; O'Sullivan et al. 2012)"""
import numpy as np


def thin(p, psi, rm, x):
    return p * np.exp(2j * (psi * np.pi / 180.0 + rm * x))


def burn(sigma, x):
    """external Faraday dispersion"""
    return np.exp(-2.0 * (sigma * x) ** 2)


def slab(d, x):
    """differential Faraday rotation through a uniform slab of total depth d: mean of exp(2i r x) over 0 < r < d"""
    return np.exp(1j * d * x) * np.sin(d * x) / (d * x)


def internal(sigma, d, x):
    s = 2.0 * (sigma * x) ** 2 - 2j * d * x
    return (1.0 - np.exp(-s)) / s


def m1(p, x):
    return thin(p["fracPol"], p["psi0_deg"], p["RM_radm2"], x)


def m2(p, x):
    return m1(p, x) * burn(p["sigmaRM_radm2"], x)


def m11(p, x):
    return thin(p["fracPol1"], p["psi01_deg"], p["RM1_radm2"], x) + thin(p["fracPol2"], p["psi02_deg"], p["RM2_radm2"], x)


def m111(p, x):
    return m11(p, x) + thin(p["fracPol3"], p["psi03_deg"], p["RM3_radm2"], x)


def m3(p, x):
    return m11(p, x) * burn(p["sigmaRM_radm2"], x)


def m4(p, x):
    a = thin(p["fracPol1"], p["psi01_deg"], p["RM1_radm2"], x) * burn(p["sigmaRM1_radm2"], x)
    return a + thin(p["fracPol2"], p["psi02_deg"], p["RM2_radm2"], x) * burn(p["sigmaRM2_radm2"], x)


def m5(p, x):
    return m1(p, x) * slab(p["deltaRM_radm2"], x)


def m6(p, x):
    a = thin(p["fracPol1"], p["psi01_deg"], p["RM1_radm2"], x) * slab(p["deltaRM1_radm2"], x)
    return a + thin(p["fracPol2"], p["psi02_deg"], p["RM2_radm2"], x) * slab(p["deltaRM2_radm2"], x)


def m7(p, x):
    return m1(p, x) * internal(p["sigmaRM_radm2"], p["deltaRM_radm2"], x)


def m12(p, x):
    a = thin(p["fracPol"], p["psi0_deg"], p["RM_screen"], x)
    return a * internal(p["sigmaRM_radm2"], p["deltaRM_radm2"], x) * burn(p["sigmaRM_radm2_FG"], x)


def chisq(q, u, dq, du, mod):
    return np.nansum(((q - mod.real) / dq) ** 2) + np.nansum(((u - mod.imag) / du) ** 2)


def sim_burn(freq, c, frac, psi, rm, sigma):
    x = (c / freq) ** 2
    z = np.sum(frac[:, None] * np.exp(2j * (psi[:, None] * np.pi / 180.0 + rm[:, None] * x)) * np.exp(-2.0 * (sigma[:, None] * x) ** 2), axis=0)
    return np.abs(z), z.real, z.imag


def sim_diff(freq, c, frac, psi, rm):
    """each component rotates its own emission differentially; the ones in front of it add their full depth"""
    x = (c / freq) ** 2
    n = len(rm)
    z = np.zeros_like(x) * 1j
    for k in range(n):
        front = np.sum(rm[k + 1:])
        z = z + frac[k] * np.sin(rm[k] * x) / (rm[k] * x) * np.exp(2j * (psi[k] * np.pi / 180.0 + (0.5 * rm[k] + front) * x))
    return np.abs(z), z.real, z.imag


def flux(freq, i0, alpha, ref, p):
    i = i0 * (freq / ref) ** alpha
    return i, i * p[1], i * p[2]


def sim_thin(c, freq, frac, psi, rm):
    z = thin(frac, psi, rm, (c / freq) ** 2)
    return frac * np.ones_like(freq), z.real, z.imag


def sim_resid(c, q, u, freq, frac, psi, rm):
    z = thin(frac, psi, rm, (c / freq) ** 2)
    dq, du = q - z.real, u - z.imag
    return np.sqrt(dq ** 2 + du ** 2), dq, du


def likelihood(freq, q, u, dq, du, c, pars):
    return -0.5 * chisq(q, u, dq, du, stand_in(pars, (c / freq) ** 2))


def criteria(k, n, lnl):
    aic = 2.0 * k - 2.0 * lnl
    return aic, aic + 2.0 * k * (k + 1) / (n - k - 1), k * np.log(n) - 2.0 * lnl


def summary(x):
    """stand-ins for median and error bars of a posterior (any three statistics of the samples)"""
    return np.median(x), np.max(x), np.min(x)


def angle(x):
    """an angle with a posterior near the ends of 0..180 degrees is summarised after a rotation by 90 degrees"""
    m, a, b = summary(x)
    if m < 45.0 or m >= 135.0:
        r = x + 90.0
        r = np.where(r >= 180.0, r - 180.0, r)
        m, a, b = summary(r)
        m = m - 90.0
        if m < 0:
            m = m + 180.0
    return m, a, b


def stand_in(p, x):
    return x


def goodness(freq, q, u, dq, du, c, pars, k, lnls):
    chi = chisq(q, u, dq, du, stand_in(pars, (c / freq) ** 2))
    n = np.sum(np.isfinite(q / dq)) + np.sum(np.isfinite(u / du))
    dof = n - k - 1
    aic, aicc, bic = criteria(k, n, np.max(lnls))
    return dof, chi, chi / dof, aic, aicc, bic
