"""properties of an RMSF, in one line each"""
import math

import numpy as np


def wavelength2(freq, c):
    return np.array([(c / f) ** 2 for f in freq])


def properties(freq, c, fwhm):
    l2 = wavelength2(freq, c)
    lo, hi = min(l2), max(l2)
    steps = [abs(l2[i + 1] - l2[i]) for i in range(len(l2) - 1)]
    return [3.8 / (hi - lo), fwhm, math.pi / lo, math.sqrt(3.0) / np.median(np.array(steps)),
            min(freq) / 1e9, 100 * c / min(freq), max(freq) / 1e9, 100 * c / max(freq), len(freq)]


def grid(freq, c, phi_max, dphi):
    """the RMSF covers twice the depths of the grid"""
    l2 = wavelength2(freq, c)
    natural = 2 * math.sqrt(3.0) / (max(l2) - min(l2))
    if phi_max is None:
        phi_max = 10 * natural
    if dphi is None:
        dphi = natural / 10
    return np.arange(-phi_max / 2, phi_max / 2 + 1e-6, dphi)


def sidelobe(rmsf, depth):
    """the highest local maximum on the positive side"""
    a = np.abs(rmsf)[len(rmsf) // 2:]
    d = depth[len(depth) // 2:]
    rise = a[1:-1] - a[:-2]
    fall = a[2:] - a[1:-1]
    where = np.where(np.sign(fall) - np.sign(rise) == -2)[0] + 1
    tops = a[where]
    return [d[where[np.argmax(tops)]], 100 * np.max(tops)]


def curves(rmsf):
    return [np.real(rmsf), np.imag(rmsf), np.abs(rmsf)]


def channels(lo, hi, width):
    f = np.arange(lo, hi, width)
    return f, np.array([1.0 for x in f])
