"""reference semantics: measurements on one Faraday dispersion function"""
import numpy as np


def mad(x):
    return np.median(np.abs(x - np.median(x))) / 0.6745


def vertex(x1, y1, x2, y2, x3, y3):
    """apex of the parabola through three points (Lagrange form)"""
    u, v = x1 - x2, x3 - x2
    a = (v * (y1 - y2) - u * (y3 - y2)) / (u * v * (u - v))
    b = ((y1 - y2) - a * u * u) / u
    return x2 - b / (2 * a), y2 - b * b / (4 * a)


def peak(FDF, phi, fwhm, dFDF, l2, lam0, biascut):
    amp = np.abs(FDF)
    n = len(FDF)
    j = np.nanargmax(amp[1 : n - 1]) + 1
    w = 2 * np.ceil(fwhm / np.nanmin(phi[1:] - phi[:-1]))
    lo, hi = int(max(0, j - w)), int(min(n, j + w))
    idx = np.arange(n)
    off = ((idx < lo) | (idx >= hi)) & (FDF == FDF)
    if np.sum(off) / n < 0.3:
        noise = mad(np.concatenate((FDF.real, FDF.imag)))
    else:
        noise = mad(np.concatenate((FDF[off].real, FDF[off].imag)))
    if dFDF is None:
        dFDF = noise
    x, a = vertex(phi[j - 1], amp[j - 1], phi[j], amp[j], phi[j + 1], amp[j + 1])
    snr = a / dFDF
    if np.abs(x) > np.max(np.abs(phi)):
        x, a = np.nan, np.nan
    eff = a
    if snr >= biascut:
        eff = np.sqrt(a**2 - 2.3 * dFDF**2)
    re, im = np.interp(x, phi, FDF.real), np.interp(x, phi, FDF.imag)
    pa = np.degrees(0.5 * np.arctan2(im, re)) % 180
    N = np.sum(l2 == l2)
    var = (np.sum(l2**2) - np.sum(l2) ** 2 / N) / (N - 1)
    return {
        "dFDFcorMAD": noise,
        "phiPeakPIfit_rm2": x,
        "dPhiPeakPIfit_rm2": fwhm * dFDF / (2 * a),
        "ampPeakPIfit": a,
        "ampPeakPIfitEff": eff,
        "dAmpPeakPIfit": dFDF,
        "snrPIfit": snr,
        "indxPeakPIfit": np.interp(x, phi, idx),
        "peakFDFimagFit": im,
        "peakFDFrealFit": re,
        "polAngleFit_deg": pa,
        "dPolAngleFit_deg": np.degrees(0.5 * dFDF / a),
        "polAngle0Fit_deg": np.degrees(np.radians(pa) - x * lam0) % 180,
        "dPolAngle0Fit_deg": np.degrees(0.5 * dFDF / np.abs(a) * np.sqrt(N / (N - 2) * ((N - 1) / N + lam0**2 / var))),
    }
