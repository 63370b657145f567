"""reference semantics: Stokes I models, fractional spectra, change of reference frequency"""
import numpy as np
from RMutils.util_misc import fit_spec_poly5

NCR = [[1], [1, 1], [1, 2, 1], [1, 3, 3, 1], [1, 4, 6, 4, 1], [1, 5, 10, 10, 5, 1]]


def linear(c, x):
    """c: coefficients from the constant upwards"""
    y = 0
    for n in range(len(c)):
        y = y + c[n] * x**n
    return y


def power(c, x):
    e = 0
    for n in range(1, len(c)):
        e = e + c[n] * np.log10(x) ** (n - 1)
    return c[0] * np.power(x, e)


def model(kind, p, x):
    """p: coefficients from the highest order down, any number up to six"""
    c = [p[len(p) - 1 - n] for n in range(len(p))]
    if kind == "linear":
        return linear(c, x)
    return power(c, x)


def residual(kind, p, x, y, dy):
    return (0, (model(kind, p, x) - y) / dy)


def isgood(i, di):
    return np.isfinite(i) & np.isfinite(di)


def refscale(kind, p, cov, ratio):
    """new coefficients and their errors; p from the highest order down, cov its covariance"""
    n = 6
    c = [p[n - 1 - k] for k in range(n)]
    V = [[cov[n - 1 - a][n - 1 - b] for b in range(n)] for a in range(n)]
    J = [[0.0 for b in range(n)] for a in range(n)]
    new = [0.0 for a in range(n)]
    if kind == "linear":
        for a in range(n):
            new[a] = c[a] * ratio**a
            J[a][a] = ratio**a
    else:
        L = np.log10(ratio)
        s = 0.0
        for k in range(1, n):
            s = s + c[k] * L**k
            for a in range(1, k + 1):
                J[a][k] = NCR[k][a] * L ** (k - a)
        for a in range(1, n):
            t = 0.0
            for k in range(a, n):
                t = t + J[a][k] * c[k]
            new[a] = t
        new[0] = c[0] * np.power(10, s)
        J[0][0] = new[0] / c[0]
        for k in range(1, n):
            J[0][k] = new[0] * np.log(10) * L**k
    err = [0.0 for a in range(n)]
    for a in range(n):
        v = 0.0
        for i in range(n):
            for j in range(n):
                v = v + J[a][i] * J[a][j] * V[i][j]
        err[a] = np.sqrt(v)
    return [new[n - 1 - a] for a in range(n)], [err[n - 1 - a] for a in range(n)]


def fractional(model, Q, U, dQ, dU, dI):
    """model, q, u, dq, du (non-finite values blanked) and the status bits of a fitted model"""
    out = [model]
    for s in (Q, U, dQ, dU):
        r = s / model
        out.append(np.where(np.isfinite(r), r, np.nan))
    bits = 0
    if np.min(model) < 0:
        bits = bits + 128
    if np.any(model < dI):
        bits = bits + 64
    out.append(bits)
    return out


def array(x):
    return np.array(x)


def model_at(kind, p, freq, ref):
    return model(kind, p, freq / ref)


def fitresult(freq, I, dI, order, kind):
    """model selection and goodness of fit around the (uninterpreted) least-squares fitter"""
    use = isgood(I, dI)
    f, y, dy = freq[use], I[use], dI[use]
    ref = 1 / np.sqrt(np.sum(1 / f**2) / len(f))
    fit = fit_spec_poly5
    if order >= 0:
        n = order
        best = fit(f / ref, y, dy, n, kind)
        aic = 2 * (n + 1) + best.fnorm
    else:
        n = 0
        best = fit(f / ref, y, dy, 0, kind)
        aic = 2 + best.fnorm
        while n < -order:
            m = fit(f / ref, y, dy, n + 1, kind)
            a = 2 * (n + 2) + m.fnorm
            if not a < aic:
                break
            n = n + 1
            best, aic = m, a
    dof = len(f) - n - 1
    return {"params": best.params, "fitStatus": int(np.abs(best.status)), "chiSq": best.fnorm, "chiSqRed": best.fnorm / dof, "AIC": aic, "polyOrd": n,
            "reference_frequency_Hz": ref, "dof": dof, "pcov": best.covar, "fit_function": kind}


def robust(x):
    """standard deviation from the median absolute deviation, over the values that are not blank"""
    x = x[~np.isnan(x)]
    return np.median(np.abs(x - np.median(x)) / 0.6745)


def plane_noise(plane, threshold):
    """noise of a channel map in two passes, and the mask of its emission"""
    first = plane[plane < threshold] if threshold > 0 else plane[plane != 0]
    cut = np.nanmedian(first) + 3 * robust(first)
    sky = plane[plane < cut]
    rms = robust(sky)
    limit = threshold if threshold > 0 else np.nanmedian(sky) - threshold * rms
    return rms, plane > limit


def noise_and_mask(cube, threshold):
    """noise per channel, and where any channel shows emission; blank channels have no noise and no emission"""
    noise = np.zeros(cube.shape[0])
    found = np.zeros(cube.shape[1:])
    for i in range(cube.shape[0]):
        noise[i] = np.nan
        if not np.all(np.isnan(cube[i])):
            rms, emission = plane_noise(cube[i], threshold)
            noise[i] = rms
            found = found + np.where(emission, 1, 0)
    return noise, found > 0


def cube_curve(kind, p, nu, ref):
    return model(kind, p, nu / ref)


def mean_map(x):
    return np.nanmean(x)
