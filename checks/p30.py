"""clean_model: the spectrum that a set of clean components and a Stokes I model predicts"""
from .common import *
from .cli import Cli
from .fs import FS, Missing
from .p13 import isinstance_, arrays, SCAL, dct
from sa.interp import Ax

M = "RMtools_1D.clean_model."
A = lambda I, st, n, l, **k: I.input_array(st, n, l, **k)
LAM0, F0 = sym("lam0", pos=True), sym("freq0", pos=True)
TEXT = "0.5,-0.25,0.0,1.5,-0.75,0.125"


def coeffs(I, st, how):
    if how == "none":
        return NONE
    if how == "text":
        return I.alloc(st, Lst([num(float(x)) for x in TEXT.split(",")]))
    return I.alloc(st, Lst([sym("c%d" % i) for i in range(6)]))


def want(chk, how, freq0, lam0=LAM0):
    I = chk.interp()
    st = I.new_state()
    c = I.alloc(st, Lst([ZERO] * 5 + [ONE])) if how == "none" else coeffs(I, st, how)
    r, st = I.run("specs.tools.clean_model", [A(I, st, "freq", ["f"], pos=True), A(I, st, "phi", ["d"]), A(I, st, "cc", ["d"], real=False), lam0, c, freq0], {}, st)
    return chk.elements(r, 2), st


def run(chk):
    w = chk.where(M + "calculate_QU_model")
    for how in ("six", "none"):
        for f0 in (NONE, F0):
            for lam0 in (LAM0,) if f0 is NONE else (LAM0, ZERO):
                nm = "%s, reference %s" % ("Stokes I coefficients" if how == "six" else "no Stokes I model", "wavelength only" if f0 is NONE else "frequency given" + (", super-resolution" if lam0 is ZERO else ""))
                chk.guarded("R30.model", nm, lambda: model(chk, nm, how, f0, lam0, w), w)
    w = chk.where(M + "main")
    for cols in (7, 5):
        for lam0 in (LAM0, ZERO):
            nm = "%d-column spectrum%s" % (cols, ", super-resolution" if lam0 is ZERO else "")
            chk.guarded("R30.tool", nm, lambda: tool(chk, nm, cols, lam0, w), w)
    return dict(floor=10, explanation="calculate_QU_model is evaluated on symbolic channels, depths, complex components and Stokes I coefficients, and the command line on abstract files holding what rmsynth1d (JSON) and rmclean1d (component table) save; the returned arrays and the table written must equal the transform of the components times the change of the Stokes I model from its value at the reference.")


def model(chk, nm, how, f0, lam0, w):
    I = chk.interp()
    st = I.new_state()
    # the reference frequency is an optional argument
    a = [A(I, st, "freq", ["f"], pos=True), A(I, st, "phi", ["d"]), A(I, st, "cc", ["d"], real=False), lam0, coeffs(I, st, how)]
    names = [x.arg for x in chk.repo.resolve(M + "calculate_QU_model")[2].args.args]
    if f0 is not NONE:
        if len(names) < 6:
            chk.holds("R30.model", nm, False, "the reference frequency of the Stokes I model cannot be given: %s" % ", ".join(names), w)
            return
        a.append(f0)
    v, st = I.run(M + "calculate_QU_model", a, {}, st)
    chk.absorb(I)
    it = chk.elements(v, 2)
    ref, st2 = want(chk, how, f0, lam0)
    for what, x, y in zip(("Q + iU", "Stokes I"), it, ref):
        chk.same_value("R30.model", "%s: %s" % (nm, what), x, st, y, st2, where=w)


def tool(chk, nm, cols, lam0, w):
    fs = FS()
    c = Cli({"freqfile": [string("s.dat")], "rmSynthfile": [string("s_RMsynth.json")], "CCfile": [string("s_FDFmodel.dat")], "outfile": [string("out/model.dat")]})
    I = chk.interp(hooks=dict(fs.hooks(), **dict(c.hooks(), **{"builtins.isinstance": isinstance_})))
    st = I.new_state()
    T.set_length("col", num(cols))
    T.set_length("c3", num(3))
    fs.text["s.dat"] = ("array", Arr((ax("f"), Ax("col", num(cols), None, TRUE)), el("tab", [lab("f"), lab("col")], pos=True)))
    fs.text["s_FDFmodel.dat"] = ("array", Arr((ax("d"), Ax("c3", num(3), None, TRUE)), el("ctab", [lab("d"), lab("c3")])))
    ent = dict(SCAL, polyCoeffs=string(TEXT), lam0Sq_m2=lam0, freq0_Hz=F0, fit_function=string("log"))
    fs.json["s_RMsynth.json"] = ("d", [(string(k), ("e", v)) for k, v in ent.items()])
    try:
        I.run(M + "main", [], {}, st)
    except Missing as ex:
        chk.holds("R30.tool", nm + ": files are found", False, str(ex), w)
        return
    chk.absorb(I)
    if "out/model.dat" not in fs.text:
        r = [e for e in I.effects if e.kind == "raise"]
        chk.holds("R30.tool", nm + ": the model is written", False, "nothing is written to the output file; %s" % (r[-1].name if r else "no error"), w)
        return
    chk.holds("R30.tool", nm + ": only the output is written", {n for n, g, k in fs.writes} == {"out/model.dat"}, "writes %s" % sorted({n for n, g, k in fs.writes}), w)
    kind, out = fs.text["out/model.dat"][:2]
    cl = I.iterate(I.call(Ext("numpy.transpose"), [I.alloc(st, Arr(out.axes, out.expr))], {}, st, None), st)
    if not chk.holds("R30.tool", nm + ": four columns", cl[0] == "known" and len(cl[1]) == 4, "the table has other columns", w):
        return
    I2 = chk.interp()
    s2 = I2.new_state()
    one = lambda n, l, i, **k: I2.alloc(s2, arr_of([l], el(n, [lab(l), num(i)], **k)))
    r, s2 = I2.run("specs.tools.clean_model_columns", [one("tab", "f", 0, pos=True), one("ctab", "d", 0), one("ctab", "d", 1), one("ctab", "d", 2), lam0, coeffs(I2, s2, "text"), F0], {}, s2)
    for what, x, y in zip(("frequency", "Stokes I", "Stokes Q", "Stokes U"), cl[1], chk.elements(r, 4)):
        chk.same_value("R30.tool", "%s: %s" % (nm, what), x, st, y, s2, where=w)
