"""reference definitions of the complexity metrics"""
import numpy as np


def percentile(x, p, q):
    """first crossing of the cumulative distribution, linearly interpolated"""
    above = np.where(p > q / 100.0)[0]
    i = above[0]
    if i == 0:
        return x[i]
    return x[i - 1] + (q / 100.0 - p[i - 1]) * (x[i] - x[i - 1]) / (p[i] - p[i - 1])


def sigma_add(y, dy, med, n):
    top = np.nanmax(y + dy) - np.nanmin(y - dy)
    s = np.linspace(top / n, top, n)
    tot = dy[np.newaxis, :] ** 2 + s[:, np.newaxis] ** 2
    chi = np.nansum((y[np.newaxis, :] - med) ** 2 / tot, axis=1)
    lns = np.nansum(0.5 * np.log(tot), axis=1)
    post = -np.log(s) - lns - 0.5 * chi
    prob = np.exp(post - np.nanmax(post))
    cdf = np.cumsum(prob) / np.nansum(prob)
    mid = percentile(s, cdf, 50.0)
    return mid, mid - percentile(s, cdf, 15.72), percentile(s, cdf, 84.27) - mid


def thin(freq, c, frac, psi, rm):
    lam2 = (c / freq) ** 2
    p = frac * np.exp(2j * (psi * np.pi / 180.0 + rm * lam2))
    return lam2, p.real, p.imag


def mom2(fdf, phi):
    w = np.abs(fdf)
    mean = np.sum(phi * w) / np.sum(w)
    return np.sqrt(np.sum(w * (phi - mean) ** 2) / np.sum(w))


def normalised(which, qm, um, q, u, dq, du):
    rq, ru = (q - qm) / dq, (u - um) / du
    one = np.ones_like(rq)
    if which == "Q":
        return rq, one
    if which == "U":
        return ru, one
    return np.concatenate((rq, ru)), np.concatenate((one, one))
