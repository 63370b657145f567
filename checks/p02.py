"""RMSF: get_rmsf_planes against the definition."""
from .common import *
from sa.term import boolatom

FN = "RMutils.util_RM.get_rmsf_planes"


def span(which):
    """largest or smallest of the wavelengths that are numbers"""
    from sa.npmodel import reduce_expr
    T.set_length("g", length("f"))
    return reduce_expr(Interp(None), "nan" + which, [ax("g")], el("l2", [lab("g")], pos=True))


def flag(labels):
    return boolatom(fn("b:flag", *[lab(l) if isinstance(l, str) else l for l in labels], raw=True))


def cases():
    for nd in (0, 1, 2, 3):
        for lam in (False, True):
            for wt in (True, False):
                for dbl in (True, False):
                    for bits in (32, 64):
                        if bits == 64 and not (wt and dbl and lam is False):
                            continue
                        yield nd, lam, wt, dbl, bits


def run(chk):
    w_ = chk.where(FN)
    for nd, lam, wt, dbl, bits in cases():
        name = "mask=%s lam0=%s weights=%s double=%s nBits=%d" % ("%dD" % nd if nd else "none", "given" if lam else "derived", "given" if wt else "uniform", dbl, bits)

        def build(I, st):
            kw = {}
            if wt:
                kw["weightArr"] = I.input_array(st, "w", ["f"])
            if nd:
                kw["mskArr"] = I.alloc(st, Arr(tuple(ax(l) for l in dom(nd)), flag(dom(nd)), "bool"))
            if lam:
                kw["lam0Sq_m2"] = sym("lam0")
            if not dbl:
                kw["double"] = FALSE
            if bits == 64:
                kw["nBits"] = num(64)
            return [I.input_array(st, "l2", ["f"], pos=True), I.input_array(st, "phi", ["k"])], kw
        r = value(chk, "R2", name, FN, build)
        if r is None:
            continue
        v, st, I = r
        chk.guarded("R2", name, lambda: compare_(chk, name, v, st, nd, lam, wt, dbl, w_), w_)
    for nd in (0, 1, 2):
        for real in (False, True):
            for wt, lam in ((False, False), (True, False), (True, True)) if nd < 2 else ((False, False), (True, True)):
                chk.guarded("R2.fit", "mask=%s real=%s weights=%s lam0=%s" % (nd, real, wt, lam), lambda: fitted(chk, nd, real, wt, lam, True, w_), w_)
            if nd < 2:
                chk.guarded("R2.fit", "mask=%s real=%s double=False" % (nd, real), lambda: fitted(chk, nd, real, True, False, False, w_), w_)
    chk.assumptions += ["lambda^2 finite; phi grid has at least two points; mask entries are boolean"]
    return dict(floor=60, explanation="RMSF, its Faraday-depth grid, its width and its reference lambda^2 compared with the defining sums for every combination of mask dimensionality, supplied/derived reference, weights, grid doubling")


def grid(dbl):
    """Faraday depth grid of the RMSF: input spacing, half the range added at both ends"""
    k = length("k")
    if not dbl:
        return arr_of(["k"], el("phi", [lab("k")]))
    n = T.fn("ceil", div(k, num(2)))
    T.set_length("k2", add(k, mul(num(2), n)))
    i = sub(lab("k2"), n)
    p = lambda z: el("phi", [z])
    lo = add(p(ZERO), mul(i, sub(p(ONE), p(ZERO))))
    e = sub(k, ONE)
    hi = add(p(e), mul(sub(i, e), sub(p(e), p(sub(k, num(2))))))
    g = ite(compare("<", i, ZERO), lo, ite(compare(">", i, e), hi, p(i)))
    return arr_of(["k2"], g)


def weights(nd, wt):
    pix = PIX[nd] if nd > 1 else []
    T.set_length("j", length("f"))
    w0 = el("w", [lab("j")]) if wt else ONE
    w = ite(isnan(w0), ZERO, w0)
    if nd == 0:
        ok = TRUE
        live = TRUE
    elif nd == 1:
        ok = not_(flag(["j"]))
        live = ok
    else:
        ok = not_(flag(["j"] + pix))
        live = not_(flag(["j"] + ["b" + l for l in pix]))
        for l in reversed(pix):
            live = anyof("b" + l, live, l)
    return pix, w, ok, live


def compare_(chk, name, v, st, nd, lam, wt, dbl, where, fit=False):
    pix, w, ok, live = weights(nd, wt)
    l2 = el("l2", [lab("j")], pos=True)
    wl = ite(live, w, ZERO)
    Wg = ssum("j", wl)
    lam0 = sym("lam0") if lam else div(ssum("j", mul(wl, l2)), Wg)
    good = and_(not_(eq(Wg, ZERO)), not_(anyof("j", isnan(l2))))
    want_phi = grid(dbl)
    got_phi = st.heap[field(v, "phi2Arr").id]
    if name.startswith("mask=none"):
        chk.same_value("R2.grid", name, field(v, "phi2Arr"), st, want_phi, st, assume=compare(">", length("k"), ONE), where=where)
    chk.same("R2.reference", name, b2n(field(v, "lam0Sq_m2")), lam0, assume=good, where=where)
    # transform on the grid the function itself returns
    T.set_length("q", got_phi.axes[0].L)
    ph = subst(got_phi.expr, {got_phi.axes[0].label: lab("q")})
    wk = ite(and_(ok, live), w, ZERO)
    W = ssum("j", wk)
    S = ssum("j", mul(wk, ei(mul(num(-2), ph, sub(l2, lam0)))))
    chk.same_value("R2.transform", name, field(v, "RMSFcube"), st, arr_of(["q"] + pix, div(S, W)), st, assume=and_(good, not_(eq(W, ZERO))), where=where)
    if fit:
        return
    T.set_length("g", length("f"))
    width = div(num("3.8"), sub(span("max"), span("min")))
    chk.same_value("R2.width", name, field(v, "fwhmRMSFArr"), st, arr_of(pix, width), st, where=where)
    if name.startswith("mask"):
        chk.same_value("R2.status", name, field(v, "statArr"), st, arr_of(pix, num(-1)), st, where=where)


def fitted(chk, nd, real, wt, lam, dbl, where):
    """with fitting requested, the width is the fitted one exactly when the fit succeeded"""
    from sa.interp import Abort

    def build(I, st):
        kw = dict(fitRMSF=TRUE)
        if real:
            kw["fitRMSFreal"] = TRUE
        if wt:
            kw["weightArr"] = I.input_array(st, "w", ["f"])
        if lam:
            kw["lam0Sq_m2"] = sym("lam0")
        if not dbl:
            kw["double"] = FALSE
        if nd:
            kw["mskArr"] = I.alloc(st, Arr(tuple(ax(l) for l in dom(nd)), flag(dom(nd)), "bool"))
        return [I.input_array(st, "l2", ["f"], pos=True), I.input_array(st, "phi", ["k"])], kw
    name = "fit mask=%s real=%s weights=%s lam0=%s double=%s" % (nd, real, wt, lam, dbl)
    r = value(chk, "R2.fit", name, FN, build, opaque=("RMutils.util_RM.fit_rmsf",))
    if r is None:
        return
    v, st, I = r
    compare_(chk, name, v, st, nd, lam, wt, dbl, where, True)
    pix, w, ok, live = weights(nd, wt)
    cube = st.heap[field(v, "RMSFcube").id]
    one = cube
    if nd == 2:
        one = Arr((cube.axes[0],), subst(cube.expr, {cube.axes[1].label: lab("p")}))
    prof = T.real(one.expr) if real else T.absv(one.expr)
    T.set_length("g", length("f"))
    ana = div(num("3.8"), sub(span("max"), span("min")))
    I2 = chk.interp(opaque=("RMutils.util_RM.fit_rmsf",))
    phi = I2.alloc(st, st.heap[field(v, "phi2Arr").id])
    out, st2 = I2.run("specs.rmsf.width", [phi, I2.alloc(st, Arr(one.axes, prof)), ana, num(-1)], {}, st)
    T.set_length("j", length("f"))
    good = TRUE
    if nd == 2:
        Wg = ssum("j", ite(and_(ok, live), w, ZERO))
        good = not_(eq(Wg, ZERO))
    for i, n in enumerate(("fwhmRMSFArr", "statArr")):
        chk.same_value("R2.fit", name + "." + n, field(v, n), st, arr_of(pix, I2.scalar(out.items[i], st2)), st2, assume=good, where=where)
