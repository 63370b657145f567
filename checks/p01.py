"""RM-synthesis transform: do_rmsynth_planes against the defining sum."""
from .common import *
from sa.term import boolatom

FN = "RMutils.util_RM.do_rmsynth_planes"


def run(chk):
    w_ = chk.where(FN)
    for nd in (1, 2, 3):
        for lam in (False, True):
            for wt in (True, False):
                name = "%dD lam0=%s weights=%s" % (nd, "given" if lam else "derived", "given" if wt else "uniform")

                def build(I, st):
                    Q = I.input_array(st, "Q", dom(nd))
                    U = I.input_array(st, "U", dom(nd))
                    l2 = I.input_array(st, "l2", ["f"], pos=True)
                    ph = I.input_array(st, "phi", ["k"])
                    kw = {}
                    if wt:
                        kw["weightArr"] = I.input_array(st, "w", ["f"])
                    if lam:
                        kw["lam0Sq_m2"] = sym("lam0")
                    return [Q, U, l2, ph], kw
                r = value(chk, "R1", name, FN, build)
                if r is None:
                    continue
                v, st, I = r
                chk.guarded("R1", name, lambda: dead_pixels(chk, name, nd, lam, wt, w_), w_)
                chk.guarded("R1", name, lambda: compare(chk, name, v, st, nd, lam, wt, w_), w_)
    chk.assumptions += ["weights are finite or NaN and non-negative; lambda^2 and phi are finite; Q/U are finite or NaN",
                        "NUFFT type 3 is its defining sum (numerical tolerance not modelled)"]
    return dict(floor=36, explanation="FDF cube, axis order and reference lambda^2 of the synthesis function compared with the defining sums for every combination of dimensionality, supplied/derived reference and supplied/uniform weights; flagged channels and empty pixels are part of the compared terms")


def compare(chk, name, v, st, nd, lam, wt, where):
    pix = [lab(l) for l in PIX[nd]]
    f = lab("j")
    T.set_length("j", length("f"))
    w0 = el("w", [f]) if wt else ONE
    w = ite(isnan(w0), ZERO, w0)
    Q, U, l2 = el("Q", [f] + pix), el("U", [f] + pix), el("l2", [f], pos=True)
    ok = and_(not_(isnan(Q)), not_(isnan(U)))
    # a channel counts towards the reference wavelength if any pixel is unflagged there
    if nd == 1:
        live = ok
    else:
        q, u = Q, U
        live = and_(not_(isnan(el("Q", [f] + [lab("b" + l) for l in PIX[nd]]))), not_(isnan(el("U", [f] + [lab("b" + l) for l in PIX[nd]]))))
        cnt = b2n(live)
        for l in reversed(PIX[nd]):
            cnt = ssum("b" + l, cnt, l)
        live = not_(eq(cnt, ZERO))
    wl = ite(live, w, ZERO)
    Wg = ssum("j", wl)
    lam0 = sym("lam0") if lam else div(ssum("j", mul(wl, l2)), Wg)
    W = ssum("j", ite(and_(ok, live), w, ZERO))
    phi = el("phi", [lab("k")])
    S = ssum("j", ite(ok, mul(w, add(Q, mul(I_, U)), ei(mul(num(-2), phi, sub(l2, lam0)))), ZERO))
    empty = not_(anyof("bk", not_(eq(subst(S, {"k": lab("bk")}), ZERO)), "k"))
    NANC = mul(add(ONE, I_), NAN)
    gen = and_(not_(eq(Wg, ZERO)), not_(eq(W, ZERO)), not_(anyof("j", isnan(l2))))
    got_l, got_F = field(v, "lam0Sq_m2"), field(v, "FDFcube")
    want = arr_of(["k"] + PIX[nd], ite(empty, NANC, div(S, W)))
    chk.same_value("R1.transform", name, got_F, st, want, st, assume=and_(gen, not_(empty)) , where=where)
    chk.same("R1.reference", name, b2n(got_l), lam0, assume=and_(not_(eq(Wg, ZERO)), not_(anyof("j", isnan(l2)))), where=where)


def dead_pixels(chk, name, nd, lam, wt, where):
    """pixels flagged in every channel come out as NaN"""
    pix = [lab(l) for l in PIX[nd]]
    dead = boolatom(fn("b:dead", *pix, raw=True)) if pix else TRUE

    def build(I, st):
        arrs = []
        for n in "QU":
            e = el(n, [lab("f")] + pix)
            arrs.append(I.alloc(st, Arr(tuple(ax(l) for l in dom(nd)), ite(dead, NAN, e))))
        kw = {}
        if wt:
            kw["weightArr"] = I.input_array(st, "w", ["f"])
        if lam:
            kw["lam0Sq_m2"] = sym("lam0")
        return arrs + [I.input_array(st, "l2", ["f"], pos=True), I.input_array(st, "phi", ["k"])], kw
    r = value(chk, "R1.empty-pixel", name, FN, build)
    if r is None:
        return
    v, st, I = r
    got = st.heap[field(v, "FDFcube").id]
    e = subst(got.expr, {a.label: lab(p) for a, p in zip(got.axes[1:], PIX[nd])})
    chk.same("R1.empty-pixel", name, isnan(e), TRUE, assume=dead, where=where)
