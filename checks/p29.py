"""bandwidth-depolarisation tools: channel response, adjoint spectrum, noise, sensitivity, measurements"""
from .tools import *
from . import p04
from sa.rint import loop_table

B = "RMtools_1D.rmtools_bwdepol."
BP = "RMtools_1D.rmtools_bwpredict."
OPQ = ("RMutils.util_RM.fit_rmsf",)


def lens(seed, t):
    return dict(f=3 + t % 4, y=1 + t % 2, x=1 + (t // 2) % 2, k=3 + t % 3, p=2)


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "bw", name, *a)
    if name == "isnan" and u01(m.seed, "fin") < 0.6:
        return False
    if name == "isnan?" and 2 <= abs(idx[0]) <= 5:
        return False
    if idx is None:
        return None
    if name == "freq":
        s = 0.05 + 0.3 * u01(m.seed, "step")
        i = float(idx[0])
        return 3.5 + (1 if u01(m.seed, "dir") < 0.7 else -1) * (i - 1.0) * s + 0.3 * s * u(i)
    if name in ("wid", "w1"):
        return 0.02 + 0.2 * u(*idx)
    if name == "phi":
        return (idx[0] - 1) * (0.3 + u01(m.seed, "d"))
    if name in ("noise", "sens"):
        return 0.1 + u(*idx)
    if name in ("dq", "du", "dQ", "dU", "s"):
        return 0.05 + 0.3 * u(*idx)
    return None


def fin(m, name, idx):
    """all values finite"""
    return False if name == "isnan" else vals(m, name, idx)


KB = dict(lens=lens, vals=vals)
F = lambda I, st: A(I, st, "freq", ["f"], pos=True)


def widths(I, st, kind):
    return NONE if kind == "none" else A(I, st, "wid", ["f"], pos=True)


def spec(chk, name, mk, opaque=()):
    I = chk.interp(opaque=opaque)
    st = I.new_state()
    v, st = I.run("specs.bwdepol." + name, mk(I, st), {}, st)
    return v, st, I


def along(chk, name, axis, mk):
    """reference function applied at every point of `axis`: (I, st, phi at the point) -> args"""
    v, st, I = spec(chk, name, lambda I, st: mk(I, st, el("phi", [lab(axis)])))
    items = v.items if isinstance(v, Tup) else [v]
    return [(Arr((ax(axis),), I.scalar(x, st)), st) for x in items]


def run(chk):
    for f in (response, synthesis, noise, rmsf, peak, driver, predict):
        T.FINITE.clear()
        f(chk)
    T.FINITE.clear()
    chk.assumptions += ["frequencies and channel widths are finite and positive; erf is the error function of a complex argument"]
    return dict(floor=120, explanation="channel response (closed form of the mean of exp(2 i phi lambda^2) over a top-hat channel), adjoint spectrum, its RMSF, noise, sensitivity, peak measurement and driver compared with reference formulas")


def response(chk):
    for fn_, args, ref_ in (("rotation_operator", lambda I, st: [A(I, st, "wid", ["f"], pos=True), F(I, st), sym("phi0")], "response"),
                            ("analytical_chan_pol", lambda I, st: [F(I, st), A(I, st, "wid", ["f"], pos=True), sym("phi0")], "response"),
                            ("estimate_channel_bandwidth", lambda I, st: [F(I, st)], "spacing"),
                            ("bwdepol_simulation", lambda I, st: [sym("phi0"), F(I, st), NONE], "simulated"),
                            ("bwdepol_simulation", lambda I, st: [sym("phi0"), F(I, st), A(I, st, "wid", ["f"], pos=True)], "simulated")):
        r = value(chk, "R29.response", fn_, B + fn_, lambda I, st: (args(I, st), {}))
        if r is None:
            continue
        mk = args if fn_ != "analytical_chan_pol" else (lambda I, st: [A(I, st, "wid", ["f"], pos=True), F(I, st), sym("phi0")])

        def go():
            v, st, _ = spec(chk, ref_, mk)
            if ref_ == "simulated":
                for n, g, w in zip(("frequency", "q", "u", "dq", "du"), chk.elements(chk.deref(r[0], r[1]), 5), chk.elements(chk.deref(v, st), 5)):
                    chk.same_value("R29.response", fn_ + " " + n, g, r[1], w, st, where=chk.where(B + fn_), **KB)
            else:
                chk.same_value("R29.response", fn_, r[0], r[1], v, st, where=chk.where(B + fn_), **KB)
        chk.guarded("R29.response", fn_, go, chk.where(B + fn_))
    r = value(chk, "R29.response", "analytical_chan_pol p", B + "analytical_chan_pol", lambda I, st: ([F(I, st), A(I, st, "wid", ["f"], pos=True), sym("phi0")], dict(p=sym("p0"))))
    if r:
        v, st, _ = spec(chk, "scaled", lambda I, st: [A(I, st, "wid", ["f"], pos=True), F(I, st), sym("phi0"), sym("p0")])
        chk.same_value("R29.response", "analytical_chan_pol with intensity", r[0], r[1], v, st, where=chk.where(B + "analytical_chan_pol"), **KB)


def synthesis(chk):
    q = B + "do_adjoint_rmsynth_planes"
    w_ = chk.where(q)
    for nd in (1, 2, 3):
        for wd in ("none", "given"):
            for lam in (False, True):
                for wt in (True, False):
                    name = "%dD widths=%s lam0=%s weights=%s" % (nd, wd, "given" if lam else "derived", "given" if wt else "uniform")
                    pix = PIX[nd]

                    def build(I, st):
                        kw = {}
                        if wd == "given":
                            kw["widths_Hz"] = widths(I, st, wd)
                        if lam:
                            kw["lam0Sq_m2"] = sym("lam0")
                        if wt:
                            kw["weightArr"] = A(I, st, "w", ["f"])
                        return [F(I, st), A(I, st, "q", ["f"] + pix), A(I, st, "u", ["f"] + pix), A(I, st, "phi", ["k"])], kw
                    r = value(chk, "R29.synthesis", name, q, build)
                    if r is None:
                        continue
                    chk.guarded("R29.synthesis", name, lambda: synth(chk, name, r, nd, wd, lam, wt, w_), w_)


def synth(chk, name, r, nd, wd, lam, wt, w_):
    v, st, I = r
    pix = PIX[nd]
    cube, lam0, var = v.items
    W = lambda I, s: A(I, s, "w", ["f"]) if wt else I.alloc(s, arr_of(["f"], ONE))
    at = lambda I, s, n: I.alloc(s, Arr((ax("f"),), el(n, [lab("f")] + [lab(l) for l in pix])))
    if nd == 1:
        g, sg, _ = spec(chk, "reference", lambda I, s: [F(I, s), at(I, s, "q"), at(I, s, "u"), W(I, s)])
        l0 = sym("lam0") if lam else g
        l0 = I.scalar(l0, sg)
        chk.same_value("R29.reference", name, lam0, st, l0, sg, where=w_, **KB)
    else:
        l0 = I.scalar(lam0, st) if not lam else sym("lam0")
    (ref_, s), = along(chk, "depth", "k", lambda I, s, ph: [F(I, s), widths(I, s, wd), at(I, s, "q"), at(I, s, "u"), W(I, s), l0, ph])
    ref_ = Arr((ax("k"),) + tuple(ax(l) for l in pix), ref_.expr)
    tot = ZERO
    T.set_length("j", length("f"))
    qq, uu = el("q", [lab("j")] + [lab(l) for l in pix]), el("u", [lab("j")] + [lab(l) for l in pix])
    ww = el("w", [lab("j")]) if wt else ONE
    tot = ssum("j", ite(or_(isnan(qq), isnan(uu), isnan(ww)), ZERO, ww))
    chk.same_value("R29.spectrum", name, cube, st, ref_, s, assume=not_(eq(tot, ZERO)), where=w_, **KB)
    it = chk.elements(chk.deref(var, st), 5)
    if wd == "none":
        g, sg, _ = spec(chk, "spacing", lambda I, s: [F(I, s)])
        chk.same_value("R29.handover", name + ": widths", it[0], st, g, sg, where=w_, **KB)
    else:
        chk.same_value("R29.handover", name + ": widths", it[0], st, A(I, st, "wid", ["f"], pos=True), st, where=w_, **KB)
    chk.same_value("R29.handover", name + ": frequencies", it[1], st, F(I, st), st, where=w_, **KB)
    chk.same_value("R29.handover", name + ": depths", it[2], st, A(I, st, "phi", ["k"]), st, where=w_, **KB)
    if nd == 1:
        T.set_length("i", length("f"))
        eff = lambda i: ite(or_(isnan(el("q", [lab(i)])), isnan(el("u", [lab(i)])), isnan(el("w", [lab(i)]) if wt else ONE)), ZERO, el("w", [lab(i)]) if wt else ONE)
        chk.same_value("R29.handover", name + ": weights", it[4], st, arr_of(["f"], eff("f")), st, where=w_, **KB)
        chk.same_value("R29.handover", name + ": normalisation", it[3], st, div(ONE, ssum("i", eff("i"))), st, assume=not_(eq(tot, ZERO)), where=w_, **KB)


def noise(chk):
    q = B + "adjoint_theory"
    w_ = chk.where(q)
    for wd in ("scalar", "given"):
        wid = lambda I, st: sym("w0", pos=True) if wd == "scalar" else A(I, st, "wid", ["f"], pos=True)
        r = value(chk, "R29.theory", wd, q, lambda I, st: ([I.alloc(st, Lst([wid(I, st), F(I, st), A(I, st, "phi", ["k"]), sym("K0"), A(I, st, "w", ["f"])])), A(I, st, "s", ["f"], pos=True)], {}))
        if r is None:
            continue

        def go():
            out = chk.elements(chk.deref(r[0], r[1]), 3)
            refs = along(chk, "theory", "k", lambda I, s, ph: [wid(I, s), F(I, s), ph, sym("K0"), A(I, s, "w", ["f"]), A(I, s, "s", ["f"], pos=True)])
            chk.same_value("R29.theory", wd + ": depths", out[0], r[1], A(r[2], r[1], "phi", ["k"]), r[1], where=w_, **KB)
            for n, g, (x, s) in zip(("sensitivity", "noise"), out[1:], refs):
                vv = lambda m, n, i: (0.2 + u01(m.seed, "w+", i)) if n == "w" and i is not None else vals(m, n, i)  # weights are positive
                chk.same_value("R29.theory", wd + ": " + n, g, r[1], x, s, where=w_, lens=lens, vals=vv)
        chk.guarded("R29.theory", wd, go, w_)


def rmsf(chk):
    q = B + "bwdepol_get_rmsf_planes"
    w_ = chk.where(q)
    for wd in ("none", "given"):
        for wt in (True, False):
            for dbl in (True, False):
                for fit in (True, False):
                    for msk in (False, True):
                        name = "widths=%s weights=%s double=%s fit=%s mask=%s" % (wd, wt, dbl, fit, msk)
                        if msk and (not dbl or fit):
                            continue
                        chk.guarded("R29.rmsf", name, lambda: rmsf1(chk, q, name, wd, wt, dbl, fit, msk, w_), w_)


def rmsf1(chk, q, name, wd, wt, dbl, fit, msk, w_):
    flag = lambda: boolatom_(["f"])

    def build(I, st):
        kw = dict(fitRMSF=TRUE if fit else FALSE, lam0Sq_m2=sym("lam0"))
        if wt:
            kw["weightArr"] = A(I, st, "w", ["f"])
        if not dbl:
            kw["double"] = FALSE
        if msk:
            kw["mskArr"] = I.alloc(st, Arr((ax("f"),), flag(), "bool"))
        return [F(I, st), widths(I, st, wd), A(I, st, "phi", ["k"]), sym("rm")], kw
    r = value(chk, "R29.rmsf", name, q, build, opaque=OPQ)
    if r is None:
        return
    v, st, I = r
    R, phi2, fw, stat = v.items
    got = st.heap[phi2.id]
    from .p02 import grid as grid2
    if not msk and not fit:
        chk.same_value("R29.grid", name, phi2, st, grid2(dbl), st, assume=compare(">", length("k"), ONE), where=w_)
    T.set_length("q", got.axes[0].L)
    ph = subst(got.expr, {got.axes[0].label: lab("q")})
    I2 = chk.interp()
    s2 = I2.new_state()
    sim, s2 = I2.run("specs.bwdepol.simulated", [sym("rm"), F(I2, s2), widths(I2, s2, wd)], {}, s2)
    sim = chk.elements(chk.deref(sim, s2), 5)
    wexpr = el("w", [lab("f")]) if wt else ONE
    if msk:
        wexpr = ite(flag(), ZERO, wexpr)
    W = I2.alloc(s2, Arr((ax("f"),), wexpr))
    out, s2 = I2.run("specs.bwdepol.depth", [F(I2, s2), widths(I2, s2, wd), sim[1], sim[2], W, sym("lam0"), ph], {}, s2)
    T.set_length("j", length("f"))
    wj = el("w", [lab("j")]) if wt else ONE
    wj = ite(isnan(wj), ZERO, wj)
    if msk:
        wj = ite(boolatom_(["j"]), ZERO, wj)
    tot = ssum("j", wj)
    ref_ = Arr((Ax_like(got, "q"),), I2.scalar(out, s2))
    chk.same_value("R29.rmsf", name, R, st, ref_, s2, assume=not_(eq(tot, ZERO)), where=w_, lens=lens, vals=fin)
    wid, s3, _ = spec(chk, "width_of_main_lobe", lambda I, s: [F(I, s)])
    if not fit:
        chk.same_value("R29.width", name, fw, st, wid, s3, where=w_, lens=lens, vals=fin)
        chk.same_value("R29.width", name + ": status", stat, st, num(-1), st, where=w_)
        return
    cube = st.heap[R.id]
    I4 = chk.interp(opaque=OPQ)
    s4 = I4.new_state()
    p = I4.alloc(s4, Arr(cube.axes, T.absv(cube.expr)))
    phi2 = I4.alloc(s4, got)
    prof, s4 = I4.run("specs.bwdepol.unit_peak", [p], {}, s4)
    o, s4 = I4.run("specs.rmsf.width", [phi2, prof, I4.scalar(wid, s3), num(-1)], {}, s4)
    chk.same_value("R29.width", name, fw, st, o.items[0], s4, where=w_, lens=lens, vals=fin)
    chk.same_value("R29.width", name + ": status", stat, st, o.items[1], s4, where=w_, lens=lens, vals=fin)


def boolatom_(labels):
    return T.boolatom(fn("b:flag", *[lab(l) for l in labels], raw=True))


def Ax_like(arr, label):
    return ax(label, arr.axes[0].L)


def peak(chk):
    q = B + "bwdepol_measure_FDF_parms"
    w_ = chk.where(q)

    def args(I, st):
        return dict(FDF=A(I, st, "FDF", ["k"], real=False), phiArr=A(I, st, "phi", ["k"]), fwhmRMSF=sym("fwhm", pos=True), adjoint_sens=A(I, st, "sens", ["k"], pos=True), adjoint_noise=A(I, st, "noise", ["k"], pos=True),
                    lamSqArr_m2=A(I, st, "lam2", ["f"], pos=True), lam0Sq=sym("lam0", pos=True), snrDoBiasCorrect=sym("snrmin", pos=True))

    def pv(m, name, idx):
        if name in ("sens", "noise") and idx is not None:
            return 0.1 + u01(m.seed, "bw", name, idx)
        return p04.vals(m, name, idx)
    for extra in (False, True):
        r = value(chk, "R29.peak", "noise given" if extra else "noise", q, lambda I, st: ([], dict(args(I, st), **(dict(dFDF=sym("unused")) if extra else {}))))
        if r is None:
            continue

        def go():
            v, st, I2 = spec(chk, "peak", lambda I, st: list(args(I, st).values()))
            chk.same_value("R29.peak", "peak" if extra else "peak, no noise given", r[0], r[1], v, st, assume=compare(">", length("k"), num(2)), where=w_, lens=p04.lens, vals=pv, loops=loop_table(r[2], I2))
        chk.guarded("R29.peak", "peak", go, w_)


COLS = {7: ("freq", "I", "Q", "U", "dI", "dQ", "dU"), 5: ("freq", "Q", "U", "dQ", "dU"), 8: ("freq", "wid", "I", "Q", "U", "dI", "dQ", "dU"), 6: ("freq", "wid", "Q", "U", "dQ", "dU")}


def driver(chk):
    q = B + "run_adjoint_rmsynth"
    w_ = chk.where(q)
    for n in COLS:
        for kind in ("variance", "uniform"):
            for given in ("none", "both", "extent", "step"):
                for ignore in (False, True):
                    if (ignore and n in (5, 6)) or (given != "none" and kind == "uniform") or (given in ("extent", "step") and (ignore or n in (6, 7)) and chk.tier == "quick"):
                        continue
                    name = "%d columns %s grid=%s%s" % (n, kind, given, " ignoring I" if ignore else "")
                    chk.guarded("R29.driver", name, lambda: drive(chk, q, name, n, kind, given, ignore, w_), w_)


def drive(chk, q, name, n, kind, given, ignore, w_):
    c = Calls()
    peakd = lambda I, st, a: I.alloc(st, Dct({string(x).key: (string(x), sym("m:" + x)) for x in MEAS}))
    info = lambda I, st, a: I.alloc(st, Lst([a["adjoint_vars"].items[2] if isinstance(a["adjoint_vars"], Tup) else A(I, st, "grid", ["k"]), A(I, st, "sens", ["k"], pos=True), A(I, st, "noise", ["k"], pos=True)]))
    hooks = {
        B + "do_adjoint_rmsynth_planes": c.hook(B + "do_adjoint_rmsynth_planes", lambda I, st, a: Tup([A(I, st, "FDF", ["k"], real=False), sym("lam0", pos=True), sym("vars")])),
        B + "adjoint_theory": c.hook(B + "adjoint_theory", lambda I, st, a: I.alloc(st, Lst([A(I, st, "phi", ["k"]), A(I, st, "sens", ["k"], pos=True), A(I, st, "noise", ["k"], pos=True)]))),
        B + "bwdepol_get_rmsf_planes": c.hook(B + "bwdepol_get_rmsf_planes", lambda I, st, a: Tup([A(I, st, "RMSF", ["k2"], real=False), A(I, st, "phi2", ["k2"]), sym("fwhm", pos=True), sym("stat")])),
        M + "create_frac_spectra": c.hook(M + "create_frac_spectra", lambda I, st, a: Tup(arrs(I, st, ("Imod", "q", "u", "dq", "du")) + [fitres(I, st, "log")])),
        B + "bwdepol_measure_FDF_parms": c.hook(B + "bwdepol_measure_FDF_parms", peakd),
        U + "measure_qu_complexity": c.hook(U + "measure_qu_complexity", lambda I, st, a: Tup([I.alloc(st, Dct({string(x).key: (string(x), sym("c:" + x)) for x in ("sigmaAddC", "dSigmaAddPlusC", "dSigmaAddMinusC")})), I.alloc(st, Dct({}))])),
        M + "calculate_StokesI_model": c.hook(M + "calculate_StokesI_model", curve),
    }
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    data = I.alloc(st, table(n))
    pm = sym("phimax", pos=True) if given in ("both", "extent") else NONE
    dp = sym("dphi", pos=True) if given in ("both", "step") else NONE
    kw = dict(fitRMSF=T.boolatom(fn("b:fitRMSF", raw=True)), polyOrd=sym("ord"), phiMax_radm2=pm, dPhi_radm2=dp, nSamples=sym("nsamp", pos=True), weightType=string(kind), units=sym("unit"))
    if ignore:
        kw["noStokesI"] = TRUE
    v, st = I.run(q, [data], kw, st)
    chk.absorb(I)
    if v is BOTTOM:
        chk.holds("R29.driver", name + ": returns", False, "every path raises", w_)
        return
    eqv = lambda rule, what, g, s, w, sw, **k: chk.same_value(rule, "%s: %s" % (name, what), g, s, w, sw, where=w_, **dict(dict(lens=tlens, vals=vals), **k))
    md, ad = st.heap[v.items[0].id].ent, st.heap[v.items[1].id].ent
    got = lambda n_: md[string(n_).key][1]
    out = lambda n_: ad[string(n_).key][1]
    hasI = n in (7, 8) and not ignore
    GHz = lambda e: div(e, num(10 ** 9))
    # spectra
    a, s = c.one(M + "create_frac_spectra")
    eqv("R29.spectra", "frequencies in GHz", a["freqArr"], s, arr_of(["f"], GHz(el("freq", [lab("f")], pos=True))), s)
    for p, col in (("QArr", "Q"), ("UArr", "U"), ("dQArr", "dQ"), ("dUArr", "dU"), ("IArr", "I"), ("dIArr", "dI")):
        w = A(I, s, col, ["f"], pos=col in POS) if hasI or p not in ("IArr", "dIArr") else arr_of(["f"], ONE if p == "IArr" else ZERO)
        eqv("R29.spectra", p, a[p], s, w, s)
    eqv("R29.spectra", "order", a.get("polyOrd", num(2)), s, sym("ord"), s)
    # stages
    g, sg, _ = spec(chk, "grid", lambda J, s: [F(J, s), pm, dp, sym("nsamp", pos=True)])
    sig = lambda l: div(add(el("dQ", [lab(l)], pos=True), el("dU", [lab(l)], pos=True)), num(2))
    wt = arr_of(["f"], div(ONE, mul(sig("f"), sig("f"))) if kind == "variance" else ONE)
    wid = A(I, st, "wid", ["f"], pos=True) if n in (6, 8) else NONE
    a, s = c.one(B + "do_adjoint_rmsynth_planes")
    for p, w, sw in (("freqArr_Hz", F(I, s), s), ("dataQ", A(I, s, "q", ["f"]), s), ("dataU", A(I, s, "u", ["f"]), s), ("phiArr_radm2", g, sg), ("weightArr", wt, s), ("widths_Hz", wid, st), ("lam0Sq_m2", NONE, s)):
        eqv("R29.stages", "synthesis " + p, a.get(p, NONE), s, w, sw)
    a, s = c.one(B + "adjoint_theory")
    eqv("R29.stages", "noise: channels", a["adjoint_vars"], s, sym("vars"), s)
    eqv("R29.stages", "noise: errors", a["dQUArr"], s, arr_of(["f"], sig("f")), s)
    rm, sr, _ = spec(chk, "strongest", lambda J, s: [A(J, s, "FDF", ["k"], real=False), A(J, s, "noise", ["k"], pos=True), A(J, s, "phi", ["k"])])
    a, s = c.one(B + "bwdepol_get_rmsf_planes")
    bad = or_(not_(T.isfinite(el("q", [lab("f")])))) if hasattr(T, "isfinite") else isnan(el("q", [lab("f")]))
    for p, w, sw in (("freqArr_Hz", F(I, s), s), ("phiArr_radm2", A(I, s, "phi", ["k"]), s), ("weightArr", wt, s), ("widths_Hz", wid, st), ("lam0Sq_m2", sym("lam0", pos=True), s), ("peak_rm", rm, sr), ("fitRMSF", T.boolatom(fn("b:fitRMSF", raw=True)), st)):
        eqv("R29.stages", "RMSF " + p, a.get(p, NONE), s, w, sw)
    # flux scale
    f0 = div(sym("c_light", pos=True), T.sqrt(sym("lam0", pos=True)))
    I0 = I.scalar(curve(I, st, dict(fit_result=fitres(I, st, "log"), freqArr_Hz=GHz(f0))), st)
    fdf = arr_of(["k"], mul(el("FDF", [lab("k")], real=False), I0))
    a, s = c.one(B + "bwdepol_measure_FDF_parms")
    lam2 = arr_of(["f"], T.power(div(sym("c_light", pos=True), el("freq", [lab("f")], pos=True)), num(2)))
    for p, w in (("FDF", fdf), ("phiArr", A(I, s, "phi", ["k"])), ("fwhmRMSF", sym("fwhm", pos=True)), ("adjoint_sens", A(I, s, "sens", ["k"], pos=True)), ("adjoint_noise", A(I, s, "noise", ["k"], pos=True)), ("lamSqArr_m2", lam2), ("lam0Sq", sym("lam0", pos=True))):
        eqv("R29.stages", "measurement " + p, a.get(p, NONE), s, w, s)
    t_, stt, _ = ref(chk, "theory_noise", lambda J, s: [J.alloc(s, wt)] + arrs(J, s, ("dQ", "dU")))
    eqv("R29.stages", "theoretical noise", a.get("dFDF", NONE), s, t_, stt)
    eqv("R29.report", "Ifreq0", got("Ifreq0"), st, I0, st)
    eqv("R29.report", "freq0_Hz", got("freq0_Hz"), st, f0, st)
    eqv("R29.report", "lam0Sq_m2", got("lam0Sq_m2"), st, sym("lam0", pos=True), st)
    eqv("R29.report", "fwhmRMSF", got("fwhmRMSF"), st, sym("fwhm", pos=True), st)
    eqv("R29.report", "units", got("units"), st, sym("unit"), st)
    m_, sm, _ = ref(chk, "median_noise", lambda J, s: arrs(J, s, ("dQ", "dU")))
    eqv("R29.report", "dQU", got("dQU"), st, m_, sm)
    eqv("R29.report", "fracPol", got("fracPol"), st, div(sym("m:ampPeakPIfit"), I0), st)
    eqv("R29.arrays", "spectrum", out("dirtyFDF"), st, arr_of(["k"], div(mul(el("FDF", [lab("k")], real=False), I0), el("sens", [lab("k")], pos=True))), st)
    for p, w in (("phiArr_radm2", A(I, st, "phi", ["k"])), ("phi2Arr_radm2", A(I, st, "phi2", ["k2"])), ("RMSFArr", A(I, st, "RMSF", ["k2"], real=False)), ("freqArr_Hz", F(I, st)), ("weightArr", arr_of(["f"], ite(isnan(sig("f")), ZERO, wt.expr) if kind == "variance" else ONE))):
        eqv("R29.arrays", p, out(p), st, w, st)
    a, s = c.one(U + "measure_qu_complexity")
    for p, w in (("freqArr_Hz", F(I, s)), ("qArr", A(I, s, "q", ["f"])), ("uArr", A(I, s, "u", ["f"])), ("dqArr", A(I, s, "dq", ["f"], pos=True)), ("duArr", A(I, s, "du", ["f"], pos=True)), ("fracPol", div(sym("m:ampPeakPIfit"), I0)), ("psi0_deg", sym("m:polAngle0Fit_deg")), ("RM_radm2", sym("m:phiPeakPIfit_rm2"))):
        eqv("R29.complexity", p, a.get(p, NONE), s, w, s)


MEAS = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]


def table(n):
    """the columns of the input file as one array"""
    T.set_length("col", num(n))
    e = ZERO
    for i, c in reversed(list(enumerate(COLS[n]))):
        e = ite(eq(lab("col"), num(i)), el(c, [lab("f")], pos=c in POS + ("wid",)), e)
    return Arr((ax("col"), ax("f")), e)


def tlens(seed, t):
    return dict(f=3 + t % 4, k=3 + t % 3, k2=5)


def predict(chk):
    q = BP + "bwdepol_compute_predictions"
    w_ = chk.where(q)
    for wd in ("none", "given"):
        for given in ("none", "phiMax", "dPhi", "both"):
            name = "widths=%s grid=%s" % (wd, given)

            def go():
                c = Calls()
                h = {B + "adjoint_theory": c.hook(B + "adjoint_theory", lambda I, st, a: I.alloc(st, Lst([A(I, st, "phi", ["k"]), A(I, st, "sens", ["k"], pos=True), A(I, st, "noise", ["k"], pos=True)])))}
                pm = sym("phimax", pos=True) if given in ("phiMax", "both") else NONE
                dp = sym("dphi", pos=True) if given in ("dPhi", "both") else NONE
                I = chk.interp(hooks=h)
                st = I.new_state()
                kw = dict(phiMax_radm2=pm, dPhi_radm2=dp)
                if wd == "given":
                    kw["widths_Hz"] = widths(I, st, wd)
                v, st = I.run(q, [F(I, st)], kw, st)
                chk.absorb(I)
                a, s = c.one(B + "adjoint_theory")
                it = chk.elements(chk.deref(a["adjoint_vars"], s), 5)
                g, sg, _ = spec(chk, "predicted_grid", lambda J, s: [F(J, s), pm, dp])
                if wd == "none":
                    w, sw, _ = spec(chk, "spacing", lambda J, s: [F(J, s)])
                else:
                    w, sw = A(I, s, "wid", ["f"], pos=True), s
                eqv = lambda what, g, s, w, sw: chk.same_value("R29.predict", "%s: %s" % (name, what), g, s, w, sw, where=w_, lens=tlens, vals=vals)
                eqv("widths", it[0], s, w, sw)
                eqv("frequencies", it[1], s, F(I, s), s)
                eqv("depths", it[2], s, g, sg)
                eqv("normalisation", it[3], s, div(ONE, length("f")), s)
                eqv("weights", it[4], s, arr_of(["f"], ONE), s)
                eqv("errors", a["dQUArr"], s, arr_of(["f"], ONE), s)
                o = chk.elements(chk.deref(v, st), 3)
                eqv("depths returned", o[0], st, A(I, st, "phi", ["k"]), st)
                eqv("sensitivity", o[1], st, A(I, st, "sens", ["k"], pos=True), st)
                n_, sn, _ = spec(chk, "unit_peak", lambda J, s: [A(J, s, "noise", ["k"], pos=True)])
                eqv("noise", o[2], st, n_, sn)
            chk.guarded("R29.predict", name, go, w_)
