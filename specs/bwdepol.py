"""reference semantics: RM synthesis with the exact response of top-hat channels (Fine et al. 2023)"""
import numpy as np
from scipy.special import erf
from astropy.constants import c as speed_of_light

from specs.peak import mad, vertex

C = speed_of_light.value


def primitive(nu, phi):
    """integral of exp(2 i phi c^2/nu^2) over frequency"""
    s = np.sign(phi) - 1j
    return nu * np.exp(2j * phi * C**2 / nu**2) + s * C * np.sqrt(np.pi * np.abs(phi)) * erf(s * np.sqrt(np.abs(phi)) * C / nu)


def response(width, nu, phi):
    """mean of exp(2 i phi lambda^2) over the channel"""
    return (primitive(nu + width / 2, phi) - primitive(nu - width / 2, phi)) / width


def scaled(width, nu, phi, p):
    return p * response(width, nu, phi)


def spacing(nu):
    return nu[1] - nu[0]


def depth(nu, width, q, u, w, lam0, phi):
    """value of the spectrum at one Faraday depth"""
    if width is None:
        width = spacing(nu)
    use = ~(np.isnan(q) | np.isnan(u) | np.isnan(w))
    W = np.where(use, w, 0.0)
    P = np.where(use, q + 1j * u, 0.0)
    return np.exp(2j * phi * lam0) * np.sum(W * P * np.conj(response(width, nu, phi))) / np.sum(W)


def reference(nu, q, u, w):
    use = ~(np.isnan(q) | np.isnan(u) | np.isnan(w))
    W = np.where(use, w, 0.0)
    return np.sum(W * (C / nu) ** 2) / np.sum(W)


def theory(width, nu, phi, K, w, s):
    """sensitivity and noise at one Faraday depth"""
    r2 = np.abs(response(width, nu, phi)) ** 2
    return K * np.sum(w * r2), np.sqrt(np.sum(w**2 * s**2 * r2)) / np.sum(w)


def simulated(rm, nu, width):
    if width is None:
        width = spacing(nu)
    p = response(width, nu, rm)
    return [nu, np.real(p), np.imag(p), np.ones(len(nu)), np.ones(len(nu))]


def grid(nu, phimax, dphi, nsamp):
    l = (C / nu) ** 2
    if dphi is None:
        dphi = 2 * np.sqrt(3.0) / (np.nanmax(l) - np.nanmin(l)) / nsamp
    if phimax is None:
        phimax = max(np.sqrt(3.0) / np.nanmax(np.abs(l[1:] - l[:-1])), 600.0)
    half = int(round(abs(phimax / dphi)))
    return (np.arange(2 * half + 1) - half) * dphi


def predicted_grid(nu, phimax, dphi):
    l = (C / nu) ** 2
    if dphi is None:
        dphi = 2 * np.sqrt(3.0) / (np.nanmax(l) - np.nanmin(l))
    if phimax is None:
        phimax = 2 * np.sqrt(3.0) / np.nanmin(np.abs(l[1:] - l[:-1]))
    return np.arange(0, phimax + 1e-6, dphi)


def width_of_main_lobe(nu):
    l = (C / nu) ** 2
    return 2 * np.sqrt(3.0) / (np.nanmax(l) - np.nanmin(l))


def unit_peak(x):
    return x / np.max(x)


def profile(R):
    a = np.abs(R)
    return a / np.max(a)


def strongest(F, noise, phi):
    j = np.nanargmax((np.abs(F) / noise)[1 : len(phi) - 1]) + 1
    return phi[j]


def peak(FDF, phi, fwhm, sens, noise, l2, lam0, biascut):
    n = len(FDF)
    s2n = np.abs(FDF) / noise
    amp = np.abs(FDF) / sens
    j = np.nanargmax(s2n[1 : n - 1]) + 1
    w = 2 * np.ceil(fwhm / np.nanmin(phi[1:] - phi[:-1]))
    lo, hi = int(max(0, j - w)), int(min(n, j + w))
    idx = np.arange(n)
    off = ((idx < lo) | (idx >= hi)) & (s2n == s2n)
    if np.sum(off) / n < 0.3:
        rms = mad(s2n)
    else:
        rms = mad(s2n[off])
    x, a = vertex(phi[j - 1], amp[j - 1], phi[j], amp[j], phi[j + 1], amp[j + 1])
    da = noise[j] / sens[j]
    snr = a / da
    eff = a
    if snr >= biascut:
        eff = np.sqrt(a**2 - 2.3 * da**2)
    re, im = np.interp(x, phi, FDF.real), np.interp(x, phi, FDF.imag)
    pa = np.degrees(0.5 * np.arctan2(im, re)) % 180
    N = np.sum(l2 == l2)
    var = (np.sum(l2**2) - np.sum(l2) ** 2 / N) / (N - 1)
    return {
        "dFDFcorMAD": rms * noise[j],
        "phiPeakPIfit_rm2": x,
        "dPhiPeakPIfit_rm2": fwhm / (2 * snr),
        "ampPeakPIfit": a,
        "ampPeakPIfitEff": eff,
        "dAmpPeakPIfit": da,
        "snrPIfit": snr,
        "indxPeakPIfit": np.interp(x, phi, idx),
        "peakFDFimagFit": im,
        "peakFDFrealFit": re,
        "polAngleFit_deg": pa,
        "dPolAngleFit_deg": np.degrees(0.5 / snr),
        "polAngle0Fit_deg": np.degrees(np.radians(pa) - x * lam0) % 180,
        "dPolAngle0Fit_deg": np.degrees(0.5 / np.abs(snr) * np.sqrt(N / (N - 2) * ((N - 1) / N + lam0**2 / var))),
    }
