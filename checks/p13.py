"""1D products on disk: what rmsynth1d saves is what rmclean1d cleans, and what rmclean1d reports"""
from .common import *
from .cli import Cli
from .fs import FS, Missing
from .tools import Calls, bound
from sa.npmodel import is_integral

S, C = "RMtools_1D.do_RMsynth_1D.", "RMtools_1D.do_RMclean_1D."
HB, MP, MX = "RMutils.util_RM.do_rmclean_hogbom", "RMutils.util_RM.measure_FDF_parms", "RMutils.util_RM.measure_fdf_complexity"
A = lambda I, st, n, l, **k: I.input_array(st, n, l, **k)
SCAL = {"dFDFth": sym("dFDFth", pos=True), "fwhmRMSF": sym("fwhm", pos=True), "lam0Sq_m2": sym("lam0", pos=True), "freq0_Hz": sym("freq0", pos=True), "Ifreq0": sym("Ifreq0"), "dQU": sym("dQU"), "N_channels": length("chan"), "units": string("Jy/beam"), "polyCoeffs": string("1,2")}
ARRS = {"phiArr_radm2": ("phi", ["d"]), "dirtyFDF": ("F", ["d"]), "phi2Arr_radm2": ("phi2", ["d2"]), "RMSFArr": ("R", ["d2"]), "freqArr_Hz": ("freq", ["f"]), "weightArr": ("w", ["f"])}
CPLX = ("dirtyFDF", "RMSFArr")


KINDS = {"float": {"float", "float64", "floating", "number", "Number", "Real", "generic", "inexact"}, "int": {"int", "int64", "integer", "Integral", "number", "Number", "Real", "signedinteger"}, "str": {"str", "str_"}, "list": {"list"}, "dict": {"dict"}, "ndarray": {"ndarray"}}


def isinstance_(I, args, kw, st, node):
    """types of the values the tools store: text, floats, integers, arrays"""
    v, c = args
    cs = {x.name.split(".")[-1] if isinstance(x, Ext) else str(getattr(x, "name", "?")) for x in (c.items if isinstance(c, Tup) else [c])}
    o = st.heap[v.id] if isinstance(v, Ref) else None
    if isinstance(o, Arr):
        k = "ndarray"
    elif isinstance(o, Dct):
        k = "dict"
    elif o is not None:
        return NotImplemented
    elif isinstance(v, E) and v.kind == "str":
        k = "str"
    elif isinstance(v, E) and v.kind == "poly":
        k = "int" if is_integral(v) else "float"
    else:
        return NotImplemented
    return TRUE if cs & KINDS[k] else FALSE


def arrays(I, st):
    return {k: A(I, st, n, l, real=k not in CPLX, **({"pos": True} if n == "freq" else {})) for k, (n, l) in ARRS.items()}


def dct(I, st, ent):
    return I.alloc(st, Dct({string(k).key: (string(k), v) for k, v in ent.items()}))


def run(chk):
    for pre in ("dir/source", "my.data/src.v2"):
        w_ = chk.where(S + "saveOutput")
        chk.guarded("R13.synth", pre, lambda: synth(chk, pre, w_), w_)
    w_ = chk.where(C + "run_rmclean")
    for cut, win in ((num(-3), NONE), (sym("cut", pos=True), NONE), (T.neg(sym("ncut", pos=True)), T.neg(sym("nwin", pos=True))), (sym("cut", pos=True), sym("win", pos=True))):
        nm = "cutoff %s, window %s" % (show(cut), show(win))
        chk.guarded("R13.clean", nm, lambda: clean(chk, nm, cut, win, w_), w_)
    w_ = chk.where(S + "readFile")
    for cols in (7, 5):
        chk.guarded("R13.read", "%d columns" % cols, lambda: read(chk, cols, w_), w_)
    return dict(floor=10, explanation="An abstract file system keeps tables, JSON and text that the tools write. The value-numbering interpreter runs saveOutput of rmsynth1d and then the command line of rmclean1d (argparse modelled) on those files with the numerical kernels replaced by recorders, and compares every argument of RM-CLEAN and of the peak measurement, every entry of the result and every column, key and name of the files as terms.")


def read(chk, cols, w_):
    fs = FS()
    I = chk.interp(hooks=dict(fs.hooks(), **{"builtins.isinstance": isinstance_}))
    st = I.new_state()
    from sa.interp import Ax
    T.set_length("col", num(cols))
    fs.text["s.dat"] = ("array", Arr((ax("r"), Ax("col", num(cols), None, TRUE)), el("tab", [lab("r"), lab("col")])))
    for bits in (32, 64):
        v, st = I.run(S + "readFile", [string("s.dat"), num(bits)], {}, st)
        it = chk.elements(chk.deref(v, st), cols)
        for i, x in enumerate(it):
            chk.same_value("R13.read", "%d columns: column %d" % (cols, i), x, st, arr_of(["r"], el("tab", [lab("r"), num(i)])), st, where=w_)


def synth(chk, pre, w_):
    fs = FS()
    I = chk.interp(hooks=dict(fs.hooks(), **{"builtins.isinstance": isinstance_}))
    st = I.new_state()
    arrs = arrays(I, st)
    m = dct(I, st, dict(SCAL))
    v, st = I.run(S + "saveOutput", [m, dct(I, st, arrs), string(pre), FALSE], {}, st)
    written(chk, "R13.synth", pre, fs, pre, {"_FDFdirty.dat": ("phiArr_radm2", "dirtyFDF"), "_RMSF.dat": ("phi2Arr_radm2", "RMSFArr"), "_weight.dat": ("freqArr_Hz", "weightArr")}, "_RMsynth", SCAL, {k: (n, l) for k, (n, l) in ARRS.items()}, I, st, w_)


def written(chk, rule, nm, fs, pre, tables, res, scal, arrs, I, st, w_):
    want = {pre + k for k in tables} | {pre + res + ".dat", pre + res + ".json"}
    got = set(fs.text) | set(fs.lines) | set(fs.json)
    chk.holds(rule, nm + ": files written", got == want, "files %s" % sorted(got ^ want), w_)
    for k, names in tables.items():
        cols = []
        for a in names:
            n, l = arrs[a]
            e = el(n, [lab(x) for x in l], real=a not in CPLX + ("cleanFDF", "ccArr"), pos=n == "freq")
            cols += [e] if e._real else [real(e), imag(e)]
        t = fs.text.get(pre + k)
        if t is None:
            continue
        r = I.alloc(st, Arr(t[1].axes, t[1].expr))
        c = I.iterate(I.call(Ext("numpy.transpose"), [r], {}, st, None), st)
        if not chk.holds(rule, "%s: number of columns of %s" % (nm, k), c[0] == "known" and len(c[1]) == len(cols), "columns differ", w_):
            continue
        for i, (x, y) in enumerate(zip(c[1], cols)):
            chk.same_value(rule, "%s: column %d of %s" % (nm, i, k), x, st, arr_of(arrs[names[0]][1], y), st, where=w_)
    j = fs.json.get(pre + res + ".json")
    if chk.holds(rule, "%s: %s.json is written" % (nm, res), j is not None and j[0] == "d", "no dictionary", w_):
        ent = {T.str_const(k): v for k, v in j[1]}
        chk.holds(rule, "%s: entries of %s.json" % (nm, res), set(ent) == set(scal), "entries %s" % sorted(set(ent) ^ set(scal)), w_)
        for k, x in scal.items():
            if k in ent:
                chk.same(rule, "%s: %s in %s.json" % (nm, k, res), ent[k][1], x, where=w_)
    lines = fs.lines.get(pre + res + ".dat", [])
    text = T.strcat([x for x, g in lines]) if lines else string("")
    J = chk.interp()
    s2 = J.new_state()
    ref_, s2 = J.run("specs.tools.key_value_lines", [dct(J, s2, dict(scal))], {}, s2)
    chk.same(rule, "%s: text of %s.dat" % (nm, res), text, ref_, where=w_)


RES = ("dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "dAmpPeakPIfit", "snrPIfit", "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg")
CLEANED = {"cleanFDF": ("cl", ["d"]), "ccArr": ("cc", ["d"])}


def clean(chk, nm, cut, win, w_):
    """rmsynth1d -S followed by rmclean1d -S"""
    fs, calls = FS(), Calls()
    cli = Cli(dict(dataFile=string("d.1/src.v2.dat"), cutoff=cut, gain=sym("gain", pos=True), maxIter=sym("maxIter", pos=True), saveOutput=TRUE, **({} if win is NONE else {"window": win})))
    hooks = dict(fs.hooks(), **{"builtins.isinstance": isinstance_})
    for k, h in cli.hooks().items():
        hooks[k] = h
    hooks[HB] = calls.hook(HB, lambda I, st, a: Tup([A(I, st, "cl", ["d"], real=False), A(I, st, "cc", ["d"], real=False), length("iterations"), A(I, st, "res", ["d"], real=False)], ("cleanFDF", "ccArr", "iterCountArr", "residFDF"), "RMCleanResults"))
    hooks[MP] = calls.hook(MP, lambda I, st, a: dct(I, st, {k: sym("m:" + k) for k in RES}))
    hooks[MX] = calls.hook(MX, lambda I, st, a: sym("mom2"))
    hooks[C + "plot_clean_spec"] = lambda I, a, k, st, node: fn("figure")
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    v, st = I.run(S + "saveOutput", [dct(I, st, dict(SCAL)), dct(I, st, arrays(I, st)), string("d.1/src.v2"), FALSE], {}, st)
    old = set(fs.text) | set(fs.lines) | set(fs.json)
    try:
        v, st = I.run(C + "main", [], {}, st)
    except Missing as ex:
        chk.holds("R13.clean", nm + ": finds the files of rmsynth1d", False, str(ex), w_)
        return
    chk.absorb(I)
    if v is BOTTOM or not any(q == HB for q, *_ in calls.log):
        chk.holds("R13.clean", nm + ": runs", False, "the spectrum is not cleaned", w_)
        return
    a, s = calls.one(HB)
    for par, k in (("dirtyFDF", "dirtyFDF"), ("phiArr_radm2", "phiArr_radm2"), ("RMSFArr", "RMSFArr"), ("phi2Arr_radm2", "phi2Arr_radm2")):
        n, l = ARRS[k]
        chk.same_value("R13.clean", "%s: %s reaches RM-CLEAN as it was computed" % (nm, par), a[par], s, arr_of(l, el(n, [lab(x) for x in l], real=k not in CPLX)), s, where=w_)
    noise = SCAL["dFDFth"]
    scale = lambda x: x if x.kind == "atom" else mul(T.neg(x), noise)
    absc = cut if T.show(cut).startswith("cut") else mul(T.neg(cut), noise)
    absw = T.NAN if win is NONE else win if T.show(win).startswith("win") else mul(T.neg(win), noise)
    chk.same("R13.clean", nm + ": width of the RMSF", I.scalar(a["fwhmRMSFArr"], s), SCAL["fwhmRMSF"], where=w_)
    chk.same("R13.clean", nm + ": cutoff in flux units", I.scalar(a["cutoff"], s), absc, where=w_)
    chk.same("R13.clean", nm + ": window threshold in flux units", I.scalar(a["window"], s), absw, where=w_)
    chk.same("R13.clean", nm + ": gain", I.scalar(a["gain"], s), sym("gain", pos=True), where=w_)
    chk.same("R13.clean", nm + ": maximum number of iterations", I.scalar(a["maxIter"], s), sym("maxIter", pos=True), where=w_)
    chk.same("R13.clean", nm + ": precision", I.scalar(a.get("nBits", num(32)), s), num(32), where=w_)
    a, s = calls.one(MP)
    for par, e in (("FDF", el("cl", [lab("d")], real=False)), ("phiArr", el("phi", [lab("d")]))):
        chk.same_value("R13.measure", "%s: %s of the peak measurement" % (nm, par), a[par], s, arr_of(["d"], e), s, where=w_)
    for par, k in (("fwhmRMSF", "fwhmRMSF"), ("dFDF", "dFDFth"), ("lam0Sq", "lam0Sq_m2")):
        chk.same("R13.measure", "%s: %s of the peak measurement" % (nm, par), I.scalar(a[par], s), SCAL[k], where=w_)
    J = chk.interp()
    s2 = J.new_state()
    used, s2 = J.run("specs.tools.used_lambda_squared", [A(J, s2, "freq", ["f"], pos=True), A(J, s2, "w", ["f"]), sym("c_light", pos=True)], {}, s2)
    chk.same_value("R13.measure", nm + ": wavelengths of the peak measurement", a["lamSqArr_m2"], s, used, s2, where=w_)
    a, s = calls.one(MX)
    for par, e in (("FDF", el("cc", [lab("d")], real=False)), ("phiArr", el("phi", [lab("d")]))):
        chk.same_value("R13.measure", "%s: %s of the second moment" % (nm, par), a[par], s, arr_of(["d"], e), s, where=w_)
    m = {k: sym("m:" + k) for k in RES}
    r = div(m["dFDFcorMAD"], noise)
    m.update(cleanCutoff=absc, nIter=length("iterations"), mom2CCFDF=sym("mom2"), dPhiObserved_rm2=mul(m["dPhiPeakPIfit_rm2"], r), dAmpObserved=m["dFDFcorMAD"], dPolAngleFitObserved_deg=mul(m["dPolAngleFit_deg"], r), dPolAngleFit0Observed_deg=mul(m["dPolAngle0Fit_deg"], r))
    fs.text = {k: v for k, v in fs.text.items() if k not in old}
    fs.lines = {k: v for k, v in fs.lines.items() if k not in old}
    fs.json = {k: v for k, v in fs.json.items() if k not in old}
    written(chk, "R13.results", nm, fs, "d.1/src.v2", {"_FDFclean.dat": ("phi", "cleanFDF"), "_FDFmodel.dat": ("phi", "ccArr")}, "_RMclean", m, dict(CLEANED, phi=("phi", ["d"])), I, st, w_)
