"""Peak measurements: measure_FDF_parms against reference formulas."""
from .common import *
from sa.rint import loop_table, u01

FN = "RMutils.util_RM.measure_FDF_parms"


def lens(seed, t):
    return dict(k=5 + t % 5, f=4 + t % 3)


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "pk", *a)
    if name == "isnan":
        return False
    if idx is None:
        return None
    if name == "phi":
        jit = 0.4 * u("j", idx) if u("jm") < 0.3 else 0  # also grids that are not uniform
        return (idx[0] + jit) * (0.6 + u("d")) - 4 * u("o")
    if name == "fwhm":
        return (0.6 + u("d")) * (0.1 + 1.2 * u("fw"))
    if name == "FDF":
        if u("em") < 0.5:  # spectra rising towards the lower edge: the parabola can run off the grid
            return complex(2 - 0.2 * idx[0] - 0.02 * idx[0] ** 2 + 0.02 * u("r", idx), 0)
        return complex(2 * u("r", idx) - 1, 2 * u("i", idx) - 1)
    if name == "dFDF":
        return 0.02 + 0.4 * u("n")
    if name == "lam2":
        return 0.03 + 0.1 * u("l", idx)
    if name == "snrmin":
        return 1 + 8 * u("s")
    return None


def run(chk):
    w_ = chk.where(FN)
    for given in (True, False):
        name = "noise given" if given else "noise measured"

        def args(I, st):
            return dict(FDF=I.input_array(st, "FDF", ["k"], real=False), phiArr=I.input_array(st, "phi", ["k"]), fwhmRMSF=sym("fwhm", pos=True), dFDF=sym("dFDF", pos=True) if given else NONE,
                        lamSqArr_m2=I.input_array(st, "lam2", ["f"], pos=True), lam0Sq=sym("lam0", pos=True), snrDoBiasCorrect=sym("snrmin", pos=True))
        r = value(chk, "R4", name, FN, lambda I, st: ([], args(I, st)))

        def ref():
            I2 = chk.interp()
            st2 = I2.new_state()
            v, st2 = I2.run("specs.peak.peak", list(args(I2, st2).values()), {}, st2)
            return v, st2, I2
        rr = chk.guarded("R4", name, ref, w_)
        if r and rr:
            chk.same_value("R4.peak", name, r[0], r[1], rr[0], rr[1], where=w_, lens=lens, vals=vals, loops=loop_table(r[2], rr[2]))
    return dict(floor=28, explanation="every entry of the measurement dictionary compared with the reference formulas (parabola vertex, noise, bias correction, angles and their uncertainties)")
