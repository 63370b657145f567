"""reference semantics: the Gaussian fitted to the main lobe of the RMSF"""
import numpy as np


def lobe(y, level):
    """positions symmetric about the peak, as far as the first sample right of it below the level"""
    n = len(y)
    peak = int(np.argmax(y))
    reach = 0
    while not y[peak + reach] < level:
        reach += 1
    idx = np.arange(n)
    return np.abs(idx - peak) < reach


def kept(y, level):
    near = lobe(y, level)
    high = near & ~(y < level)
    if np.sum(high) < 4:
        return near
    return high


def gauss(x, a, b, w):
    s = w / (2 * np.sqrt(2 * np.log(2)))
    return a * np.exp(-((x - b) ** 2) / (2 * s**2))


def residual(x, y, level, a, b, w):
    k = kept(y, level)
    xs, ys = x[k], y[k]
    return gauss(xs, a, b, w) - ys, xs[np.argmax(ys)], np.nanmax(xs) - np.nanmin(xs)


def mask(y, level):
    return np.where(lobe(y, level), 1.0, 0.0)
