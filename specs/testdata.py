"""reference semantics: simulated test data"""
import numpy as np

from specs.qu import sim_burn, sim_diff

def channels(first, last, n, bad):
    f = first + np.arange(n) * (last - first) / (n - 1)
    for lo, hi in bad:
        f = np.where((f >= lo) & (f <= hi), np.nan, f)
    return f


def relative_noise(f, table):
    """noise curve in units of its median, extended linearly beyond its ends"""
    if table is None:
        return np.where(f == f, 1.0, 1.0)
    x, y = table[:, 0], table[:, 1] / np.median(table[:, 1])
    inside = np.interp(f, x, y)
    below = y[0] + (f - x[0]) * (y[1] - y[0]) / (x[1] - x[0])
    above = y[-1] + (f - x[-1]) * (y[-1] - y[-2]) / (x[-1] - x[-2])
    return np.where(f < x[0], below, np.where(f > x[-1], above, inside))


def source(f, c, kind, row, ref):
    """Stokes I, Q and U of one line of the catalogue (the columns after the type of model)"""
    width = 4 if kind == 1 else 3
    flux, index = row[5], row[6]
    parts = row[7:]
    n = len(parts) // width
    frac = np.array([parts[k * width] for k in range(n)])
    psi = np.array([parts[k * width + 1] for k in range(n)])
    rm = np.array([parts[k * width + 2] for k in range(n)])
    if kind == 1:
        sigma = np.array([parts[k * width + 3] for k in range(n)])
        p, q, u = sim_burn(f, c, frac, psi, rm, sigma)
    else:
        p, q, u = sim_diff(f, c, frac, psi, rm)
    i = flux * (f / ref) ** index
    return i, i * q, i * u


def plane(amp, x, y, minor, major, pa, ny, nx):
    """elliptical Gaussian whose major axis is turned from the second axis towards the first by pa"""
    dx = np.arange(nx)[None, :] - x
    dy = np.arange(ny)[:, None] - y
    across = dx * np.cos(pa) - dy * np.sin(pa)
    along = dx * np.sin(pa) + dy * np.cos(pa)
    return amp * np.exp(-0.5 * ((across / minor) ** 2 + (along / major) ** 2))


def cube(spectra, places, minor, major, pa, ny, nx):
    """sum over the sources of spectrum times Gaussian: [channel, y, x]"""
    total = 0
    for s, (x, y) in zip(spectra, places):
        total = total + s[:, None, None] * plane(1.0, x, y, minor, major, pa, ny, nx)[None, :, :]
    return total


def sigma(fwhm, pixel):
    return fwhm / np.sqrt(8 * np.log(2)) / pixel


def reference_frequency():
    from RMtools_3D.mk_test_cube_data import freq0_Hz

    return freq0_Hz


def noise_planes(rms, shape):
    return rms * shape[:, None, None]


def setting(name):
    import RMtools_3D.mk_test_cube_data as tool

    return getattr(tool, name)
