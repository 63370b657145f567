"""shared harness: analysis of the drivers with the numerical kernels replaced by recorders"""
import ast

from .common import *
from .p08 import result as fitres
from sa.rint import u01

U, M = "RMutils.util_RM.", "RMutils.util_misc."
S1, S3 = "RMtools_1D.do_RMsynth_1D.run_rmsynth", "RMtools_3D.do_RMsynth_3D.run_rmsynth"


def bound(I, qual, args, kw):
    """arguments of a call by parameter name"""
    node = I.repo.resolve(qual)[2].args
    names = [p.arg for p in node.posonlyargs + node.args]
    d = dict(zip(names, args))
    d.update(kw)
    return d


class Calls:
    """records the calls made to some functions; each returns a given symbolic result"""

    def __init__(self):
        self.log = []

    def hook(self, qual, result):
        def h(I, args, kw, st, node):
            if any(type(a).__name__ == "StarArg" for a in args) or "**" in kw:
                return NotImplemented
            a = bound(I, qual, args, kw)
            self.log.append((qual, a, st.copy(), st.guard))
            return result(I, st, a)
        return h

    def one(self, qual):
        r = [x for x in self.log if x[0] == qual]
        if len(r) != 1:
            raise Abort("%s is called %d times" % (qual, len(r)))
        return r[0][1], r[0][2]


def curve(I, st, a):
    """an uninterpreted Stokes I model curve"""
    r, f = a["fit_result"], a["freqArr_Hz"]
    key = [I.term(field(r, n), st) for n in ("params", "reference_frequency_Hz", "fit_function")]
    return I.ew(lambda x: el("Icurve", key + [x]), [f], st)


def renorm(I, st, a):
    r, new = a["fit_result"], I.scalar(a["new_reference_frequency"], st)
    out = dict(zip(r.names, r.items))
    for n in ("params", "perror"):
        l = I.alloc(st, Lst([el("re:" + n, [num(i), new]) for i in range(6)]))
        out[n] = I.run("specs.stokesi.array", [l], {}, st)[0]
    out["reference_frequency_Hz"] = new
    return Tup([out[n] for n in r.names], r.names, r.cls)


A = lambda I, st, n, l, **k: I.input_array(st, n, l, **k)
POS = ("freq", "dI", "dQ", "dU", "dq", "du", "rms")


def arrs(I, st, names, labels=("f",)):
    return [A(I, st, n, list(labels), pos=n in POS) for n in names]


PEAK = ["ampPeakPIfitEff", "polAngle0Fit_deg", "phiPeakPIfit_rm2"]


def synth1d(chk, superres=False, fields=7, model=False, **kw):
    """run_rmsynth of the 1D tool on symbolic spectra; returns (calls, value, state, interp)"""
    c = Calls()
    lam0 = ZERO if superres else sym("lam0", pos=True)
    peak = lambda I, st, a: I.alloc(st, Dct({string(n).key: (string(n), sym("m:" + n)) for n in PEAK}))
    hooks = {
        U + "do_rmsynth_planes": c.hook(U + "do_rmsynth_planes", lambda I, st, a: Tup([A(I, st, "FDF", ["k"], real=False), lam0])),
        U + "get_rmsf_planes": c.hook(U + "get_rmsf_planes", lambda I, st, a: Tup([A(I, st, "RMSF", ["k2"], real=False), A(I, st, "phi2", ["k2"]), sym("fwhm", pos=True), sym("stat"), sym("lam0'")])),
        M + "create_frac_spectra": c.hook(M + "create_frac_spectra", lambda I, st, a: Tup(arrs(I, st, ("Imod", "q", "u", "dq", "du")) + [fitres(I, st, "log")])),
        U + "measure_FDF_parms": c.hook(U + "measure_FDF_parms", peak),
        U + "measure_qu_complexity": c.hook(U + "measure_qu_complexity", lambda I, st, a: Tup([I.alloc(st, Dct({})), I.alloc(st, Dct({}))])),
        M + "calculate_StokesI_model": c.hook(M + "calculate_StokesI_model", curve),
        M + "renormalize_StokesI_model": c.hook(M + "renormalize_StokesI_model", renorm),
    }
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    names = ("freq", "I", "Q", "U", "dI", "dQ", "dU") if fields == 7 else ("freq", "Q", "U", "dQ", "dU")
    data = I.alloc(st, Lst(arrs(I, st, names)))
    if superres:
        kw["super_resolution"] = TRUE
    if model:
        kw["modStokesI"] = A(I, st, "mod", ["f"])
    v, st = I.run(S1, [data], kw, st)
    chk.absorb(I)
    return c, v, st, I


def synth3d(chk, superres=False, stokesI=False, rms=False, pix=("y", "x"), **kw):
    c = Calls()
    lam0 = ZERO if superres else sym("lam0", pos=True)
    p = list(pix)
    hooks = {
        U + "do_rmsynth_planes": c.hook(U + "do_rmsynth_planes", lambda I, st, a: Tup([A(I, st, "FDF", ["k"] + p, real=False), lam0])),
        U + "get_rmsf_planes": c.hook(U + "get_rmsf_planes", lambda I, st, a: Tup([A(I, st, "RMSF", ["k2"] + p, real=False), A(I, st, "phi2", ["k2"]), A(I, st, "fwhm", p), A(I, st, "stat", p), lam0])),
    }
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    if stokesI:
        kw["dataI"] = A(I, st, "Icube", ["f"] + p)
    if rms:
        kw["rmsArr"] = A(I, st, "rms", ["f"], pos=True)
    if superres:
        kw["super_resolution"] = TRUE
    v, st = I.run(S3, [A(I, st, "Q", ["f"] + p), A(I, st, "U", ["f"] + p), A(I, st, "freq", ["f"], pos=True)], kw, st)
    chk.absorb(I)
    return c, v, st, I


def ref(chk, name, mk, module="tools"):
    """value of a reference function; mk(I, st) gives its arguments"""
    I = chk.interp()
    st = I.new_state()
    v, st = I.run("specs.%s.%s" % (module, name), mk(I, st), {}, st)
    return v, st, I


def lens(seed, t):
    return dict(f=3 + t % 4, y=1 + t % 2, x=1 + (t // 2) % 2, k=3 + t % 3, k2=5)


def vals(m, name, idx):
    """band with mostly finite channels; descending or ascending frequencies; coarse depth grids"""
    u = lambda *a: u01(m.seed, "tl", name, *a)
    if name == "isnan" and u01(m.seed, "fin") < 0.4:
        return False
    if name == "isnan?" and 2 <= abs(idx[0]) <= 5:
        return False
    if idx is None:
        return None
    if name == "freq":
        s = 0.02 + 0.3 * u01(m.seed, "step")
        i = float(idx[0])
        return 3.5 + (1 if u01(m.seed, "dir") < 0.7 else -1) * (i - 1.0) * s + 0.3 * s * u(i)
    if name == "lam0":
        s = 0.02 + 0.3 * u01(m.seed, "step")
        return (1.83 / (3.5 + 0.8 * (u() - 0.5) * s)) ** 2
    if name in ("phimax", "dphi", "nsamp"):
        return {"phimax": 2 + 9 * u(), "dphi": 0.7 + u(), "nsamp": 1 + 3 * u()}[name]
    if name in ("dq", "du", "dQ", "dU", "rms"):
        return 0.05 + 0.3 * u(*idx)
    return None


K = dict(lens=lens, vals=vals)
