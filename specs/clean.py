"""reference semantics of RM-CLEAN for one spectrum"""
import numpy as np


def clean(dirty, rmsf, phi, npad, fwhm, cutoff, maxIter, gain, window):
    nphi = len(phi)
    resid = dirty.copy()
    comp = np.zeros_like(dirty)
    restored = np.zeros_like(dirty)
    centre = np.nanargmax(rmsf)
    n = 0
    # stage 1: always the strongest residual, down to the cutoff
    while np.max(np.abs(resid)) >= cutoff and n < maxIter:
        j = np.argmax(np.abs(resid))
        c = gain * resid[j]
        comp[j] += c
        restored = restored + c * np.exp(-4 * np.log(2) * (phi - phi[j]) ** 2 / fwhm**2)
        resid = resid - c * np.roll(rmsf, j + npad - centre)[npad:npad + nphi]
        n = n + 1
    # stage 2: only within half a beam of the stage-1 components, down to the window threshold
    half = fwhm / (phi[1] - phi[0]) / 2
    inside = np.abs(comp) > 0
    for i in np.where(inside)[0]:
        inside[max(int(i - half), 0):int(i + half)] = True
    while np.max(np.where(inside, np.abs(resid), -np.inf)) >= window and n < maxIter:
        if not np.any(inside):
            break
        j = np.argmax(np.where(inside, np.abs(resid), -np.inf))
        c = gain * resid[j]
        comp[j] += c
        restored = restored + c * np.exp(-4 * np.log(2) * (phi - phi[j]) ** 2 / fwhm**2)
        resid = resid - c * np.roll(rmsf, j + npad - centre)[npad:npad + nphi]
        n = n + 1
    return restored, comp, n, resid
