"""change of the reference frequency of Stokes I models: coefficients and propagated errors"""
from .common import *
from sa.rint import loop_table, u01

FN3 = "RMtools_3D.rescale_I_model_3D.rescale_I_model_3D"
FN = "RMutils.util_misc.renormalize_StokesI_model"


def lens(seed, t):
    return {}


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "rn", name, *a)
    if name == "fnew":
        return 0.6 + 0.8 * u()
    if name == "fref":
        return 0.6 + 0.8 * u()
    if name[:1] == "v" and name[1:].isdigit():
        return (3.0 if name[1] == name[2] else 0) + 0.4 * u() - 0.2
    return None


def run(chk):
    w_ = chk.where(FN)
    for kind in ("linear", "log"):
        def build(I, st):
            return [result(I, st, kind), sym("fnew", pos=True)], {}
        r = value(chk, "R8", kind, FN, build)
        if r:
            chk.guarded("R8", kind, lambda: against(chk, kind, *r, w_), w_)
    chk.guarded("R8.map", "rescale_I_model_3D", lambda: maps(chk), chk.where(FN3))
    return dict(floor=24, explanation="coefficients and errors returned for a symbolic fit result compared with the general rule J cov J^T, J being the Jacobian of the coefficient transformation that leaves the model curve unchanged")


def params(I, st):
    return I.alloc(st, Lst([sym("p%d" % i) for i in range(6)]))


def cov(I, st):
    rows = [I.alloc(st, Lst([sym("v%d%d" % (min(i, j), max(i, j))) for j in range(6)])) for i in range(6)]
    return I.alloc(st, Lst(rows))


def result(I, st, kind, **over):
    arr = lambda v: I.run("specs.stokesi.array", [v], {}, st)[0]
    d = dict(params=arr(params(I, st)), fitStatus=sym("status"), chiSq=sym("chisq"), chiSqRed=sym("chired"), AIC=sym("aic"), polyOrd=sym("order"), nIter=sym("niter"),
             reference_frequency_Hz=sym("fref", pos=True), dof=sym("dof"), pcov=arr(cov(I, st)), perror=sym("perr"), fit_function=string(kind))
    d.update(over)
    v, _ = I.run("RMutils.util_misc.FitResult", [], d, st)
    return v


def against(chk, kind, v, st, I, where):
    I2 = chk.interp()
    st2 = I2.new_state()
    ratio = div(sym("fnew", pos=True), sym("fref", pos=True))
    ref, st2 = I2.run("specs.stokesi.refscale", [string(kind), params(I2, st2), cov(I2, st2), ratio], {}, st2)
    k = dict(where=where, lens=lens, vals=vals)
    chk.same_value("R8.coefficients", kind, field(v, "params"), st, ref.items[0], st2, **k)
    chk.same_value("R8.errors", kind, field(v, "perror"), st, ref.items[1], st2, **k)
    chk.same("R8.reference", kind, field(v, "reference_frequency_Hz"), sym("fnew", pos=True), where=where)
    for n, s in (("fitStatus", "status"), ("chiSq", "chisq"), ("polyOrd", "order"), ("dof", "dof")):
        chk.same("R8.kept", "%s.%s" % (kind, n), field(v, n), sym(s), where=where)
    chk.same("R8.kept", "%s.fit_function" % kind, field(v, "fit_function"), string(kind), where=where)


def lens3(seed, t):
    return dict(y=1 + t % 3, x=1 + (t // 3) % 3)


def maps(chk):
    """every pixel is rescaled from its own coefficients, covariance, old and new reference frequency"""
    w_ = chk.where(FN3)

    def one(I, args, kw, st, node):
        if len(args) + len(kw) != 2 or not isinstance(args[0], Tup):
            return NotImplemented
        r, new = args[0], args[1] if len(args) > 1 else kw["new_reference_frequency"]
        key = [I.term(field(r, n), st) for n in ("params", "pcov", "reference_frequency_Hz", "fit_function")] + [I.term(new, st)]
        out = dict(zip(r.names, r.items))
        for f, n in (("params", "newp"), ("perror", "newe")):
            T.set_length("j6", num(6))
            out[f] = I.alloc(st, Arr((ax("j6", num(6)),), el(n, [lab("j6")] + key)))
        return Tup([out[n] for n in r.names], r.names, r.cls)
    Y, X = length("y"), length("x")

    def inputs(I, st):
        a = lambda n, l, Ls: I.input_array(st, n, l, Ls=Ls)
        return [a("cov", ["i", "j", "y", "x"], [num(6), num(6), Y, X]), a("old", ["y", "x"], [Y, X]), a("new", ["y", "x"], [Y, X]), a("co", ["i", "y", "x"], [num(6), Y, X])]
    for kind in ("log", "linear"):
        I = chk.interp(hooks={FN: one})
        st = I.new_state()
        v, st = I.run(FN3, inputs(I, st), dict(fit_function=string(kind)), st)
        chk.absorb(I)
        I2 = chk.interp()
        st2 = I2.new_state()
        y, x = lab("y"), lab("x")
        T.set_length("a6", num(6)), T.set_length("b6", num(6))
        p = I2.term(I2.alloc(st2, Arr((ax("a6", num(6)),), el("co", [lab("a6"), y, x]))), st2)
        c = I2.term(I2.alloc(st2, Arr((ax("a6", num(6)), ax("b6", num(6))), el("cov", [lab("a6"), lab("b6"), y, x]))), st2)
        key = [p, c, el("old", [y, x]), string(kind), el("new", [y, x])]
        k = dict(where=w_, lens=lens3, loops=loop_table(I, I2))
        six = lambda n: Arr((ax("i", num(6)), ax("y", Y), ax("x", X)), el(n, [lab("i")] + key))
        chk.same_value("R8.map", kind + ".frequencies", v.items[0], st, arr_of(["y", "x"], el("new", [y, x])), st2, **k)
        chk.same_value("R8.map", kind + ".coefficients", v.items[1], st, six("newp"), st2, **k)
        chk.same_value("R8.map", kind + ".errors", v.items[2], st, six("newe"), st2, **k)
