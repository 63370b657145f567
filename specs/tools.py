"""reference semantics of the drivers run_rmsynth (1D and 3D): what is fed to the transforms and what is reported"""
import numpy as np
from astropy.constants import c as speed_of_light
from scipy.interpolate import interp1d

C = speed_of_light.value


def lam2(freq):
    return (C / freq) ** 2


def width(freq, superres):
    l = lam2(freq)
    if superres:
        return 2.0 / (np.nanmax(l) + np.nanmin(l))
    return 3.8 / (np.nanmax(l) - np.nanmin(l))


def grid(freq, phimax, dphi, nsamp, superres):
    """odd number of equally spaced depths, symmetric about zero"""
    l = lam2(freq)
    w = width(freq, superres)
    if dphi is None:
        dphi = w / nsamp
    if phimax is None:
        phimax = max(np.sqrt(3.0) / np.nanmax(np.abs(l[1:] - l[:-1])), 10.0 * w)
    half = int(round(abs(phimax / dphi)))
    n = 2 * half + 1
    return (np.arange(n) - half) * dphi


def sigma(dq, du):
    return np.where(np.isfinite(dq) & np.isfinite(du), (dq + du) / 2.0, np.nan)


def weights(kind, s):
    if kind == "variance":
        return 1.0 / s**2
    return np.ones(len(s))


def unusable(q, u):
    return ~(np.isfinite(q) & np.isfinite(u))


def noise(kind, q, u, dq, du, I0):
    """standard error of the weighted mean over the channels that enter it"""
    s = sigma(dq, du)
    w = weights(kind, s)
    use = ~unusable(q, u) & np.isfinite(s)
    w = np.where(use, w, 0.0)
    s = np.where(use, s, 0.0)
    return np.abs(I0) * np.sqrt(np.sum(w**2 * s**2)) / np.sum(w)


def channels(kind, freq, q, u, dq, du):
    s = sigma(dq, du)
    use = ~unusable(q, u)
    if kind == "variance":
        use = use & np.isfinite(s)
    f = freq[use]
    return {"min_freq": np.min(f), "max_freq": np.max(f), "N_channels": np.sum(use), "median_channel_width": np.median(freq[1:] - freq[:-1])}


def interpolate(freq, cube, f0):
    """image at f0 by linear interpolation between the planes on either side; freq monotonic"""
    n = len(freq)
    out = cube[0] * 0.0
    for i in range(n - 1):
        t = (f0 - freq[i]) / (freq[i + 1] - freq[i])
        if 0 <= t and (t < 1 or (t == 1 and i == n - 2)):
            out = (1 - t) * cube[i] + t * cube[i + 1]
    return out


def mix(a, b, f=0.5):
    return (1 - f) * a + f * b


def at(freq, values, f0):
    return interp1d(freq, values)(f0)


def joined(x):
    return ",".join([str(v.astype(np.float32)) for v in x])


def median_noise(dq, du):
    return np.nanmedian((dq + du) / 2.0)


def used_lam2(kind, freq, q, u, dq, du):
    use = ~unusable(q, u)
    if kind == "variance":
        use = use & np.isfinite(sigma(dq, du))
    return lam2(freq)[use]


def good(l):
    """finite entries: missing values are ignored by the peak measurement"""
    return l[np.isfinite(l)]


def count(l):
    return len(good(l))


def total(l):
    return np.sum(good(l))


def squares(l):
    return np.sum(good(l) ** 2)


def peak_axis(lam2, c, lam0):
    freq = c / np.sqrt(lam2)
    if lam0 > 0:
        return freq, c / np.sqrt(lam0)
    return freq, np.nanmean(freq)


def peak_noise(noise, kind):
    """standard error of the weighted mean of the channels with a noise value"""
    if kind == "variance":
        w = np.where(np.isnan(noise), 0, 1.0 / noise ** 2)
    else:
        w = np.where(np.isnan(noise), 0, 1.0)
    return np.sqrt(np.nansum(w ** 2 * noise ** 2)) / np.sum(w)


def peak_freqs(freq):
    return np.min(freq), np.max(freq), len(freq), np.median(np.diff(freq))


def peaks(fdf, phi):
    """highest amplitude of each spectrum and the Faraday depth of its sample; no depth where every sample is missing"""
    a = np.abs(fdf)
    rm = phi[np.argmax(a, axis=0)]
    rm[np.all(np.isnan(fdf), axis=0)] = np.nan
    return np.max(a, axis=0), rm


def key_value_lines(d):
    text = ""
    for k, v in d.items():
        text = text + "%s=%s\n" % (k, v)
    return text


def used_lambda_squared(freq, weight, c):
    return ((c / freq) ** 2)[weight > 0]


def rescale_default(oldf):
    """one new reference frequency for all pixels: the mean over the map"""
    return np.full(oldf.shape, np.nanmean(oldf))


def rescale_fdf(oldf, lamsq0):
    """the frequency of the reference wavelength of the FDF cube"""
    return np.full(oldf.shape, C / np.sqrt(lamsq0))


def extracted(freq, cubes, x, y):
    """the spectra of one pixel (0-indexed column x, row y): blanked channels of Q and U are nan, every error is 1e-3"""
    s = []
    for i in range(len(cubes)):
        a = cubes[i][:, y, x].copy()
        if i >= len(cubes) - 2:
            a[~np.isfinite(a)] = np.nan
        s.append(a)
    return [freq] + s + [np.full(freq.shape, 1e-3) for c in cubes]


def pixel(x, y):
    """FITS pixel numbers count from one"""
    return int(x) - 1, int(y) - 1


def nonzero(q, u):
    """there is something to transform"""
    return (q != 0).sum() > 0 or (u != 0).sum() > 0


# ---- clean_model: spectrum predicted by the clean components
def clean_model(freq, phi, cc, lam0, coeffs, freq0):
    """Stokes I model (power law in f/f0 with a polynomial index in log10(f/f0); the last coefficient is the value at f0) and Q + iU: components in flux at the reference wavelength, following the change of Stokes I"""
    c = 299792458.0
    if freq0 is None:
        freq0 = c / np.sqrt(lam0)
    x = np.log10(freq / freq0)
    change = (freq / freq0) ** (coeffs[0] * x**4 + coeffs[1] * x**3 + coeffs[2] * x**2 + coeffs[3] * x + coeffs[4])
    lam2 = (c / freq) ** 2
    qu = np.sum(cc[:, None] * np.exp(2j * phi[:, None] * (lam2 - lam0)[None, :]), axis=0)
    return change * qu, coeffs[5] * change


def clean_model_columns(freq, phi, cre, cim, lam0, coeffs, freq0):
    qu, i = clean_model(freq, phi, cre + 1j * cim, lam0, coeffs, freq0)
    return freq, i, qu.real, qu.imag


def theory_noise(w, dq, du):
    """standard error of the weighted mean over the channels that have a weight"""
    s = sigma(dq, du)
    w = np.where(np.isnan(w), 0.0, w)
    return np.sqrt(np.sum(w**2 * np.nan_to_num(s) ** 2) / np.sum(w) ** 2)
