"""noise, reference frequency, flux scale and channel statistics reported by rmsynth1d"""
from .tools import *
from sa.rint import loop_table

FR, MP, CX, RN = M + "create_frac_spectra", U + "measure_FDF_parms", U + "measure_qu_complexity", M + "renormalize_StokesI_model"


def run(chk):
    for superres in (False, True):
        for kind in ("variance", "uniform"):
            for extra in ("7 columns", "5 columns", "model supplied"):
                T.FINITE.clear()
                if kind == "uniform":
                    T.FINITE.update(("dq", "du"))
                name = "%s %s %s" % ("super-resolution" if superres else "standard", kind, extra)
                chk.guarded("R9", name, lambda: one(chk, name, superres, kind, extra), chk.where(S1))
    T.FINITE.clear()
    chk.assumptions += ["frequencies finite; noise spectra positive; under uniform weighting the noise of every usable channel is known"]
    return dict(floor=250, explanation="values reported by rmsynth1d and arguments of its analysis stages, compared with the reference formulas over the channels that enter the FDF")


def one(chk, name, superres, kind, extra):
    w_ = chk.where(S1)
    model = extra == "model supplied"
    c, v, st, I = synth1d(chk, superres, fields=5 if extra == "5 columns" else 7, model=model, weightType=string(kind), polyOrd=sym("ord"), fit_function=sym("fun"), units=sym("unit"))
    S = lambda x, s: I.scalar(x, s)
    md = st.heap[v.items[0].id].ent
    ad = st.heap[v.items[1].id].ent
    got = lambda n: md[string(n).key][1]
    eqv = lambda rule, what, g, s, w, sw, **k: chk.same_value(rule, "%s: %s" % (name, what), g, s, w, sw, where=w_, **dict(K, **k))

    # spectra handed to the fractional-polarisation stage
    a, s = c.one(FR)
    for n, col in (("freqArr", "freq"), ("QArr", "Q"), ("UArr", "U"), ("dQArr", "dQ"), ("dUArr", "dU")):
        eqv("R9.spectra", n, a[n], s, A(I, s, col, ["f"], pos=col in POS), s)
    if extra == "5 columns":
        eqv("R9.spectra", "IArr", a["IArr"], s, arr_of(["f"], ONE), s)
        eqv("R9.spectra", "dIArr", a["dIArr"], s, arr_of(["f"], ZERO), s)
    else:
        for n, col in (("IArr", "I"), ("dIArr", "dI")):
            eqv("R9.spectra", n, a[n], s, A(I, s, col, ["f"], pos=col in POS), s)
    eqv("R9.spectra", "polyOrd", a.get("polyOrd", num(2)), s, sym("ord"), s)
    eqv("R9.spectra", "fit_function", a.get("fit_function", string("log")), s, sym("fun"), s)
    eqv("R9.spectra", "modStokesI", a.get("modStokesI", NONE), s, A(I, s, "mod", ["f"]) if model else NONE, s)

    # reference frequency and flux scale
    lam0 = ZERO if superres else sym("lam0", pos=True)
    base = fitres(I, s, "log")
    f0 = S(field(base, "reference_frequency_Hz"), s) if superres else div(sym("c_light", pos=True), T.sqrt(lam0))
    fit = base
    if not superres and not model:
        r, sr = c.one(RN)
        base = fitres(I, sr, "log")
        eqv("R9.reference", "fit handed to the renormalisation", field(r["fit_result"], "params"), sr, field(base, "params"), sr)
        eqv("R9.reference", "frequency of the renormalisation", r["new_reference_frequency"], sr, f0, sr)
        fit = renorm(I, sr, dict(fit_result=base, new_reference_frequency=f0))
        s = sr
    if model:
        I0, si, _ = ref(chk, "at", lambda J, s: [A(J, s, "freq", ["f"], pos=True), A(J, s, "mod", ["f"]), f0])
        I0 = I.scalar(I0, si)
    else:
        I0 = I.scalar(curve(I, s, dict(fit_result=fit, freqArr_Hz=f0)), s)
    eqv("R9.scale", "Ifreq0", got("Ifreq0"), st, I0, st)
    eqv("R9.reference", "freq0_Hz", got("freq0_Hz"), st, f0, st)
    eqv("R9.reference", "lam0Sq_m2", got("lam0Sq_m2"), st, lam0, st)
    eqv("R9.scale", "dirtyFDF", ad[string("dirtyFDF").key][1], st, arr_of(["k"], mul(el("FDF", [lab("k")], real=False), I0)), st)
    for n in ("polyOrd", "fitStatus", "chiSqRed"):
        eqv("R9.fit", n, got({"fitStatus": "IfitStat", "chiSqRed": "IfitChiSqRed"}.get(n, n)), st, field(fit, n), st)
    eqv("R9.fit", "fit_function", got("fit_function"), st, sym("fun"), st)
    eqv("R9.fit", "units", got("units"), st, sym("unit"), st)
    for n, p in (("polyCoeffs", "params"), ("polyCoefferr", "perror")):
        w, sw, _ = ref(chk, "joined", lambda J, s2: [field(renorm(J, s2, dict(fit_result=fitres(J, s2, "log"), new_reference_frequency=f0)) if fit is not base else fitres(J, s2, "log"), p)])
        eqv("R9.fit", n, got(n), st, w, sw)

    # theoretical noise and channel statistics
    q4 = lambda J, s: [string(kind)] + arrs(J, s, ("q", "u", "dq", "du"))
    nz, sn, _ = ref(chk, "noise", lambda J, s: q4(J, s) + [I0])
    nz = I.scalar(nz, sn)
    eqv("R9.noise", "dFDFth", got("dFDFth"), st, nz, st)
    ch, sc, _ = ref(chk, "channels", lambda J, s: [string(kind)] + arrs(J, s, ("freq", "q", "u", "dq", "du")))
    for kk, (ke, w) in sc.heap[ch.id].ent.items():
        eqv("R9.channels", show(ke), md[kk][1], st, w, sc)
    m, sm, _ = ref(chk, "median_noise", lambda J, s: arrs(J, s, ("dQ", "dU")))
    eqv("R9.noise", "dQU", got("dQU"), st, m, sm)

    # peak measurement and complexity stages
    a, s = c.one(MP)
    eqv("R9.peak", "FDF", a["FDF"], s, arr_of(["k"], mul(el("FDF", [lab("k")], real=False), I0)), s)
    eqv("R9.peak", "noise", a.get("dFDF", NONE), s, nz, s)
    eqv("R9.peak", "beam", a["fwhmRMSF"], s, sym("fwhm", pos=True), s)
    eqv("R9.peak", "reference", a.get("lam0Sq", NONE), s, lam0, s)
    eqv("R9.peak", "grid", a["phiArr"], s, ad[string("phiArr_radm2").key][1], st)
    l, sl, _ = ref(chk, "used_lam2", lambda J, s: [string(kind)] + arrs(J, s, ("freq", "q", "u", "dq", "du")))
    for stat in ("count", "total", "squares"):
        g, sg = run_ref(chk, stat, lambda J, s2: [move(J, s2, a["lamSqArr_m2"], s)])
        w, sw = run_ref(chk, stat, lambda J, s2: [move(J, s2, l, sl)])
        eqv("R9.peak", "lambda^2 of the channels: " + stat, g, sg, w, sw)
    eqv("R9.scale", "fwhmRMSF", got("fwhmRMSF"), st, sym("fwhm", pos=True), st)
    fp = div(sym("m:ampPeakPIfitEff"), I0)
    eqv("R9.scale", "fracPol", got("fracPol"), st, fp, st)
    a, s = c.one(CX)
    for n, col in (("freqArr_Hz", "freq"), ("qArr", "q"), ("uArr", "u"), ("dqArr", "dq"), ("duArr", "du")):
        eqv("R9.complexity", n, a[n], s, A(I, s, col, ["f"], pos=col in POS), s)
    eqv("R9.complexity", "fracPol", a["fracPol"], s, fp, s)
    eqv("R9.complexity", "psi0_deg", a["psi0_deg"], s, sym("m:polAngle0Fit_deg"), s)
    eqv("R9.complexity", "RM_radm2", a["RM_radm2"], s, sym("m:phiPeakPIfit_rm2"), s)


def run_ref(chk, name, mk):
    v, s, _ = ref(chk, name, mk)
    return v, s


def move(J, s2, v, s):
    """the same array in another state"""
    return J.alloc(s2, s.heap[v.id]) if hasattr(v, "id") else v
