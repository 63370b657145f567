"""reference semantics: width of the RMSF main lobe when a fit is requested"""
from RMutils.util_RM import fit_rmsf


def width(phi2, rmsf, analytic, status):
    mp = fit_rmsf(phi2, rmsf)
    if mp is None or mp.status < 1:
        return analytic, status
    return mp.params[2], mp.status
