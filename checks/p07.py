"""Stokes I modelling and fractional spectra"""
from .common import *
from sa.interp import BOTTOM
from sa.rint import loop_table, u01

M = "RMutils.util_misc."


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "si", name, *a)
    if name == "isnan" and u01(m.seed, "fin") < 0.5:
        return False
    if name == "isnan?" and 2 <= abs(idx[0]) <= 3:
        return False  # frequencies are never blanked
    if idx is None:
        return None
    if name == "freq":
        return 2 + u(idx)
    if name in ("fref", "x", "I", "mod"):
        return 0.5 + u(idx)
    if name in ("dI", "dy"):
        return 0.05 + 0.3 * u(idx)
    return None


def lens(seed, t):
    return dict(f=3 + t % 4)


K = dict(lens=lens, vals=vals)


def coeffs(I, st, n, names=False):
    l = I.alloc(st, Lst([sym("p%d" % i) for i in range(n)]))
    return l if names else I.run("specs.stokesi.array", [l], {}, st)[0]


def spec(chk, name, mk):
    I = chk.interp()
    st = I.new_state()
    v, st = I.run("specs.stokesi." + name, mk(I, st), {}, st)
    return v, st


def run(chk):
    for f, kind in (("poly5", "linear"), ("powerlaw_poly5", "log")):
        for n in range(1, 7):
            chk.guarded("R7.curve", "%s, %d coefficients" % (f, n), lambda: curve(chk, f, kind, n), chk.where(M + f))
    for kind in ("linear", "log"):
        chk.guarded("R7.model", kind, lambda: evaluate(chk, kind), chk.where(M + "calculate_StokesI_model"))
        for order in (0, 1, 2, 3, 4, 5, 7, -2):
            for dy in ("given", "none"):
                chk.guarded("R7.fit", "%s order %d errors %s" % (kind, order, dy), lambda: problem(chk, kind, order, dy), chk.where(M + "fit_spec_poly5"))
        for order in (0, 2, 5, -1, -2, -3):
            chk.guarded("R7.result", "%s order %d" % (kind, order), lambda: result(chk, kind, order), chk.where(M + "fit_StokesI_model"))
        for how in ("fitted", "failed", "supplied"):
            chk.guarded("R7.fractional", "%s %s" % (kind, how), lambda: fractional(chk, kind, how), chk.where(M + "create_frac_spectra"))
    return dict(floor=150, explanation="model curves for every number of coefficients, the least-squares problem given to the fitter (free coefficients, residual), order selection and goodness of fit, fractional spectra, their errors and the status flags compared with reference definitions for both model families")


def curve(chk, f, kind, n):
    I = chk.interp()
    st = I.new_state()
    fv, st = I.run(M + f, [coeffs(I, st, n)], {}, st)
    r = I.call(fv, [I.input_array(st, "x", ["f"], pos=True)], {}, st, None)
    chk.absorb(I)
    ref, st2 = spec(chk, "model", lambda I, st: [string(kind), coeffs(I, st, n, True), I.input_array(st, "x", ["f"], pos=True)])
    chk.same_value("R7.curve", "%s, %d coefficients" % (f, n), r, st, ref, st2, where=chk.where(M + f), **K)


def evaluate(chk, kind):
    from .p08 import result as fr
    I = chk.interp()
    st = I.new_state()
    v, st = I.run(M + "calculate_StokesI_model", [fr(I, st, kind, params=coeffs(I, st, 6)), I.input_array(st, "freq", ["f"], pos=True)], {}, st)
    chk.absorb(I)
    ref, st2 = spec(chk, "model_at", lambda I, st: [string(kind), coeffs(I, st, 6, True), I.input_array(st, "freq", ["f"], pos=True), sym("fref", pos=True)])
    chk.same_value("R7.model", kind, v, st, ref, st2, where=chk.where(M + "calculate_StokesI_model"), **K)


def problem(chk, kind, order, dy):
    """the least-squares problem handed to the fitter"""
    w_ = chk.where(M + "fit_spec_poly5")
    name = "%s order %d errors %s" % (kind, order, dy)
    got = []

    def fitter(I, args, kw, st, node):
        got.append((args, dict(kw), st))
        p = I.run("specs.stokesi.array", [I.alloc(st, Lst([sym("p%d" % i) for i in range(6)]))], {}, st)[0]
        r = I.call(args[0], [p], {}, st, node)
        got.append(r)
        return fn("fitter", opq=True)
    I = chk.interp(hooks={"RMutils.mpfit.mpfit": fitter})
    st = I.new_state()
    A = lambda n: I.input_array(st, n, ["f"], pos=True)
    v, st = I.run(M + "fit_spec_poly5", [A("x"), A("I")] + ([A("dy")] if dy == "given" else []), dict(order=num(order), fit_function=string(kind)), st)
    chk.absorb(I)
    if len(got) != 2:
        raise Abort("the fitter is not called exactly once")
    (args, kw, st), r = got
    par = kw.get("parinfo", args[3] if len(args) > 3 else None)
    par = I.deref(par, st) if hasattr(I, "deref") else st.heap[par.id]
    n = min(abs(order), 5)
    for i, x in enumerate(chk.elements(par, 6) or []):
        d = st.heap[x.id]
        e = {str_const(k): v for k, v in d.ent.values()}
        free = i >= 5 - n
        chk.same("R7.fit", "%s: coefficient %d %s" % (name, 5 - i, "free" if free else "fixed"), truth(I.scalar(e.get("fixed", FALSE), st)), not_(TRUE) if free else TRUE, where=w_)
        if not free:
            chk.same("R7.fit", "%s: value of fixed coefficient %d" % (name, 5 - i), I.scalar(e["value"], st), ZERO, where=w_)
    T.set_length("b", length("f"))
    ref, st2 = spec(chk, "residual", lambda I, s: [string(kind), coeffs(I, s, 6, True), I.input_array(s, "x", ["f"], pos=True), I.input_array(s, "I", ["f"], pos=True),
                                                   I.input_array(s, "dy", ["f"], pos=True) if dy == "given" else ONE])
    chk.same_value("R7.fit", name + ": residual", r, st, ref, st2, where=w_, **K)


def result(chk, kind, order):
    """the fit result of fit_StokesI_model; the fitter itself is left uninterpreted"""
    w_ = chk.where(M + "fit_StokesI_model")
    name = "%s order %d" % (kind, order)

    def fit(I, args, kw, st, node):
        a = dict(zip(("xData", "yData", "dyData", "order", "fit_function"), args))
        a.update(kw)
        key = [I.term(a[n], st) for n in ("xData", "yData", "dyData", "order", "fit_function")]
        at = {n: el("mp." + n, key) for n in ("fnorm", "status", "niter", "params", "covar", "perror")}
        return I.alloc(st, Ob("ext:mp", at))
    run_ = lambda I, q, args, st: I.run(q, args, {}, st)

    def inputs(I, st):
        A = lambda n: I.input_array(st, n, ["f"], pos=True)
        return [A("freq"), A("I"), A("dI"), num(order), string(kind)]
    I = chk.interp(hooks={M + "fit_spec_poly5": fit})
    st = I.new_state()
    v, st = I.run(M + "fit_StokesI_model", inputs(I, st), {}, st)
    chk.absorb(I)
    I2 = chk.interp(hooks={M + "fit_spec_poly5": fit})
    st2 = I2.new_state()
    ref, st2 = I2.run("specs.stokesi.fitresult", inputs(I2, st2), {}, st2)
    for ke, x in st2.heap[ref.id].ent.values():
        n = str_const(ke)
        chk.same_value("R7.result", "%s: %s" % (name, n), field(v, n), st, x, st2, where=w_, loops=loop_table(I, I2), **K)


def fractional(chk, kind, how):
    from .p08 import result as fr
    w_ = chk.where(M + "create_frac_spectra")
    name = "%s %s" % (kind, how)

    def fit(I, args, kw, st, node):
        if how == "failed":
            I.do_raise(st, "ArithmeticError", node)
            return BOTTOM
        return fr(I, st, kind, params=coeffs(I, st, 6))

    def inputs(I, st):
        A = lambda n: I.input_array(st, n, ["f"], pos=n in ("freq", "dI", "dQ", "dU"))
        a = [A(n) for n in ("freq", "I", "Q", "U", "dI", "dQ", "dU")]
        return a
    I = chk.interp(hooks={M + "fit_StokesI_model": fit})
    st = I.new_state()
    kw = dict(fit_function=string(kind))
    if how == "supplied":
        kw["modStokesI"] = I.input_array(st, "mod", ["f"])
    v, st = I.run(M + "create_frac_spectra", inputs(I, st), kw, st)
    chk.absorb(I)
    A = lambda I, s, n: I.input_array(s, n, ["f"], pos=n in ("freq", "dI", "dQ", "dU"))
    if how == "fitted":
        m = lambda I, s: I.run("specs.stokesi.model_at", [string(kind), coeffs(I, s, 6, True), A(I, s, "freq"), sym("fref", pos=True)], {}, s)[0]
    elif how == "failed":
        m = lambda I, s: I.alloc(s, Arr((ax("f"),), ONE))
    else:
        m = lambda I, s: A(I, s, "mod")
    ref, st2 = spec(chk, "fractional", lambda I, s: [m(I, s)] + [A(I, s, n) for n in ("Q", "U", "dQ", "dU", "dI")])
    ref = st2.heap[ref.id].items
    for n, a, b in zip(("model", "q", "u", "dq", "du"), v.items, ref):
        chk.same_value("R7.fractional", "%s: %s" % (name, n), a, st, b, st2, where=w_, **K)
    f = v.items[5]
    st_ = {"fitted": add(sym("status"), ref[5]), "failed": num(9), "supplied": ZERO}[how]
    chk.same("R7.fractional", name + ": fit status", field(f, "fitStatus"), st_, where=w_, **K)
    chk.same("R7.fractional", name + ": fit function", field(f, "fit_function"), string(kind), where=w_)
    p = chk.elements(chk.deref(field(f, "params"), st), 6)
    for i, x in enumerate(p):
        want = sym("p%d" % i) if how == "fitted" else (ONE if i == 5 else ZERO)
        chk.same("R7.fractional", "%s: coefficient %d" % (name, 5 - i), x, want, where=w_)
