"""QU-fitting: model spectra, parameters, likelihood, information criteria; simulated spectra"""
from .common import *
from sa.rint import loop_table, u01

PKG = "RMtools_1D.models_ns."
Q = "RMtools_1D.do_QUfit_1D_mnest."
M = "RMutils.util_misc."
ONE = ("fracPol", "psi0_deg", "RM_radm2")
TWO = ("fracPol1", "psi01_deg", "RM1_radm2", "fracPol2", "psi02_deg", "RM2_radm2")
MODELS = dict(m1=ONE, m2=ONE + ("sigmaRM_radm2",), m3=TWO + ("sigmaRM_radm2",), m4=TWO + ("sigmaRM1_radm2", "sigmaRM2_radm2"), m5=ONE + ("deltaRM_radm2",),
              m6=TWO + ("deltaRM1_radm2", "deltaRM2_radm2"), m7=ONE + ("deltaRM_radm2", "sigmaRM_radm2"), m11=TWO,
              m12=("fracPol", "psi0_deg", "RM_screen", "deltaRM_radm2", "sigmaRM_radm2", "sigmaRM_radm2_FG"), m111=TWO + ("fracPol3", "psi03_deg", "RM3_radm2"))


def lens(seed, t):
    return dict(f=2 + t % 4, n=1 + t % 4)


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "qu", name, *a)
    if name in ("x", "freq", "dq", "du"):
        return 0.3 + u(*idx)
    if name == "samples":
        return 180 * (u() + 0.2 * u(*idx)) / 1.2 if u("kind") < 0.7 else 180 * u(*idx)
    if name == "c_light":
        return 0.8 + 0.5 * u()
    if name[:3] == "sig":
        return u()
    if name.startswith("p:psi") or name.startswith("psi"):
        return 180 * u()
    if name.startswith("p:"):
        return 0.2 + u()
    return None


K = dict(lens=lens, vals=vals)


def run(chk):
    T.FINITE.update(("x", "freq", "dq", "du"))
    chk.assumptions += ["frequencies and errors are finite", "the differential Faraday depth of a slab model is not zero"]
    for m in MODELS:
        w_ = chk.where(PKG + m + ".model")
        chk.guarded("R10.model", m, lambda: model(chk, m, w_), w_)
        chk.guarded("R10.prior", m, lambda: prior(chk, m, w_), w_)
    for q, f in ((Q + "chisq_model", chisq), (Q + "lnlike_call", likelihood)):
        w_ = chk.where(q)
        chk.guarded("R10.likelihood", q.split(".")[-1], lambda: f(chk, w_), w_)
    chk.guarded("R10.criteria", "run_qufit", lambda: criteria(chk, chk.where(Q + "run_qufit")), chk.where(Q + "run_qufit"))
    simulated(chk)
    return dict(floor=60, explanation="each model spectrum, conversion function, chi-squared, likelihood difference, best-fit summary and information criterion, and each simulated spectrum, is computed as a term and compared with the reference in specs/qu.py; priors are read by abstractly executing the model modules")


def pdict(I, st, keys):
    return I.alloc(st, Dct({string(k).key: (string(k), sym("p:" + k)) for k in keys}))


def model(chk, m, w_):
    I = chk.interp()
    st = I.new_state()
    d = pdict(I, st, MODELS[m])
    x = I.input_array(st, "x", ["f"], pos=True)
    v, st = I.run(PKG + m + ".model", [d, x], {}, st)
    chk.absorb(I)
    if v is BOTTOM:
        chk.holds("R10.model", m + ": spectrum", False, "the model needs a parameter that has no prior (or never returns)", w_)
        return
    I2 = chk.interp()
    st2 = I2.new_state()
    ref, st2 = I2.run("specs.qu." + m, [pdict(I2, st2, MODELS[m]), I2.input_array(st2, "x", ["f"], pos=True)], {}, st2)
    chk.same_value("R10.model", m + ": spectrum", v, st, ref, st2, where=w_, **K)
    chk.holds("R10.model", m + ": parameters left as they were", all(st.heap[d.id].ent[string(k).key][1] is sym("p:" + k) for k in MODELS[m]) and len(st.heap[d.id].ent) == len(MODELS[m]), "the model changes the parameter dictionary", w_)


def prior(chk, m, w_):
    made = []

    def mk(kind):
        def h(I, args, kw, st, node):
            d = dict(zip(("minimum", "maximum", "name", "latex_label", "unit", "boundary"), args))
            d.update({k: v for k, v in kw.items() if isinstance(k, str)})
            o = I.alloc(st, Ob("prior:" + kind, d))
            return o
        return h

    def pd(I, args, kw, st, node):
        src = st.heap[args[0].id] if args and isinstance(args[0], Ref) else Dct({})
        made.append(kw.get("conversion_function", args[1] if len(args) > 1 else None))
        return I.alloc(st, Dct(dict(src.ent)))
    hooks = {}
    for pre in ("bilby.prior.", "bilby.core.prior.", "bilby.core.prior.base.", "bilby.core.prior.analytical."):
        hooks.update({pre + "Uniform": mk("Uniform"), pre + "Constraint": mk("Constraint"), pre + "PriorDict": pd, pre + "dict.PriorDict": pd})
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    names = I.exec_module(PKG + m, st)
    chk.absorb(I)
    d = st.heap[names["priors"].id]
    pri = {}
    for k, (ke, v) in d.ent.items():
        o = st.heap[v.id] if isinstance(v, Ref) else None
        if not isinstance(o, Ob) or not o.cls.startswith("prior:"):
            raise Abort("prior %s is not a bilby prior" % show(ke))
        pri[T.str_const(ke)] = (o.cls[6:], o)
    free = {k for k, (c, _) in pri.items() if c != "Constraint"}
    chk.holds("R10.prior", m + ": the sampled parameters are those of the model", free == set(MODELS[m]), "sampled %s, model %s" % (sorted(free), sorted(MODELS[m])), w_)
    at = lambda k, n: attrs(pri[k][1]).get(n, NONE)
    for k in sorted(free & set(MODELS[m])):
        if k.startswith("psi"):
            chk.holds("R10.prior", "%s: %s periodic over half a turn" % (m, k), at(k, "minimum") is ZERO and at(k, "maximum") is num(180) and at(k, "boundary") is string("periodic"), "range %s..%s %s" % tuple(str(at(k, n)) for n in ("minimum", "maximum", "boundary")), w_)
        if k.startswith("fracPol"):
            chk.holds("R10.prior", "%s: %s within 0..1" % (m, k), at(k, "minimum") is ZERO and const_val(at(k, "maximum")) is not None and 0 < const_val(at(k, "maximum")) <= 1, "range %s..%s" % (at(k, "minimum"), at(k, "maximum")), w_)
    con = {k for k, (c, _) in pri.items() if c == "Constraint"}
    n = sum(k.startswith("fracPol") for k in MODELS[m])
    want = {}
    if n > 1:
        want = {"delta_RM%d_RM%d_radm2" % (i, i + 1): sub(sym("p:RM%d_radm2" % i), sym("p:RM%d_radm2" % (i + 1))) for i in range(1, n)}
        want["sum_" + "_".join("p%d" % i for i in range(1, n + 1))] = add(*[sym("p:fracPol%d" % i) for i in range(1, n + 1)])
    chk.holds("R10.prior", m + ": constraints", con == set(want), "constrained %s, expected %s" % (sorted(con), sorted(want)), w_)
    if not want:
        return
    lo_hi = all(at(k, "minimum") is ZERO for k in con) and all(at(k, "maximum") is num(1) for k in con if k.startswith("sum"))
    chk.holds("R10.prior", m + ": components ordered by depth, total fraction within 0..1", lo_hi, "bounds of the constraints", w_)
    f = [x for x in made if x not in (None, NONE)]
    if len(f) != 1:
        chk.holds("R10.prior", m + ": conversion function", False, "the constrained quantities are never computed", w_)
        return
    p = pdict(I, st, MODELS[m])
    r = I.call(f[0], [p], {}, st, None)
    out = st.heap[r.id].ent
    for k, e in sorted(want.items()):
        got = out.get(string(k).key, (None, NONE))[1]
        chk.same("R10.prior", "%s: %s" % (m, k), got, e, where=w_)
    chk.holds("R10.prior", m + ": conversion keeps the parameters", all(out.get(string(k).key, (0, 0))[1] is sym("p:" + k) for k in MODELS[m]) and len(st.heap[p.id].ent) == len(MODELS[m]), "the sampled parameters are changed", w_)


def attrs(o):
    for n in ("attrs", "d", "fields"):
        if hasattr(o, n):
            return getattr(o, n)
    raise Abort("object")


def spectra(I, st):
    return {n: I.input_array(st, m, ["f"], pos=m in ("x",)) for n, m in (("lamSqArr_m2", "x"), ("qArr", "q"), ("dqArr", "dq"), ("uArr", "u"), ("duArr", "du"))}


def themodel(tag):
    def h(I, args, kw, st, node):
        names = ("pDict", "lamSqArr_m2")
        a = dict(zip(names, args))
        a.update(kw)
        d = st.heap[a["pDict"].id]
        if not isinstance(d, Dct):
            raise Abort("parameters are not a dictionary")
        ps = [x[1] for x in d.ent.values()]
        x = chk_deref(a["lamSqArr_m2"], st)
        return I.alloc(st, Arr(x.axes, el("mod", [x.expr] + ps, real=False)))
    return h


def chk_deref(v, st):
    return st.heap[v.id] if isinstance(v, Ref) else v


def refchi(chk, ps):
    I2 = chk.interp()
    st2 = I2.new_state()
    a = spectra(I2, st2)
    x = st2.heap[a["lamSqArr_m2"].id]
    mod = I2.alloc(st2, Arr(x.axes, el("mod", [x.expr] + ps, real=False)))
    v, st2 = I2.run("specs.qu.chisq", [a["qArr"], a["uArr"], a["dqArr"], a["duArr"], mod], {}, st2)
    return v, st2


def chisq(chk, w_):
    def build(I, st):
        a = spectra(I, st)
        a["parNames"] = I.alloc(st, Lst([string("a"), string("b")]))
        a["p"] = I.alloc(st, Lst([sym("pa"), sym("pb")]))
        a["model"] = Ext("themodel")
        return [], a
    v, st, I = value(chk, "R10.likelihood", "chisq_model", Q + "chisq_model", build, hooks={"themodel": themodel("")})
    ref, st2 = refchi(chk, [sym("pa"), sym("pb")])
    chk.same_value("R10.likelihood", "chi-squared of a parameter set", v, st, ref, st2, where=w_, **K)


def likelihood(chk, w_):
    """the log-likelihood depends on the parameters through minus half the chi-squared alone"""
    hooks = {"themodel": themodel(""), Q + "load_model": lambda I, a, k, st, node: I.alloc(st, Ob("module", {"model": Ext("themodel")}))}
    r = []
    for ps in (("pa", "pb"), ("pc", "pd")):
        I = chk.interp(hooks=hooks)
        st = I.new_state()
        a = spectra(I, st)
        o, st = I.run(Q + "lnlike_call", [], dict(a, parNames=I.alloc(st, Lst([string("a"), string("b")])), modelNum=num(1)), st)
        st.heap[o.id] = Ob(st.heap[o.id].cls, dict(st.heap[o.id].attrs, parameters=I.alloc(st, Dct({string(n).key: (string(n), sym(p)) for n, p in zip("ab", ps)}))))
        v = I.call(I.getattr(o, "log_likelihood", st, None), [], {}, st, None)
        chk.absorb(I)
        c, _ = refchi(chk, [sym(p) for p in ps])
        r.append((v, c))
    (v1, c1), (v2, c2) = r
    chk.same("R10.likelihood", "log-likelihood", sub(v1, v2), mul(num(-0.5), sub(c1, c2)), where=w_, **K)


def simulated(chk):
    comp = lambda I, st, n: [I.alloc(st, Lst([sym("%s%d" % (k, i), pos=k == "RMp") for i in range(n)])) for k in ("frac", "psi", "RM")]
    names = ("fracPolArr", "psi0Arr_deg", "RMArr_radm2")
    arr = lambda I, st, l: I.run("specs.stokesi.array", [l], {}, st)[0]
    for n in (1, 2, 3):
        for sig in (False, True):
            q = M + "create_pqu_spectra_burn"
            w_ = chk.where(q)
            name = "burn, %d components%s" % (n, ", dispersion" if sig else "")

            def one():
                def build(I, st):
                    kw = dict(zip(names, comp(I, st, n)))
                    if sig:
                        kw["sigmaRMArr_radm2"] = I.alloc(st, Lst([sym("sig%d" % i) for i in range(n)]))
                    return [I.input_array(st, "freq", ["f"], pos=True)], kw
                v, st, I = value(chk, "R10.simulated", name, q, build)
                I2 = chk.interp()
                st2 = I2.new_state()
                s = I2.alloc(st2, Lst([sym("sig%d" % i) if sig else ZERO for i in range(n)]))
                a = [arr(I2, st2, x) for x in comp(I2, st2, n) + [s]]
                ref, st2 = I2.run("specs.qu.sim_burn", [I2.input_array(st2, "freq", ["f"], pos=True), sym("c_light", pos=True)] + a, {}, st2)
                for m, x, y in zip("pqu", v.items, ref.items):
                    chk.same_value("R10.simulated", "%s: %s" % (name, m), x, st, y, st2, where=w_, **K)
            chk.guarded("R10.simulated", name, one, w_)
        q2 = M + "create_pqu_spectra_diff"
        name2 = "diff, %d components" % n

        def two():
            def build(I, st):
                return [I.input_array(st, "freq", ["f"], pos=True)], dict(zip(names, comp(I, st, n)))
            v, st, I = value(chk, "R10.simulated", name2, q2, build)
            I2 = chk.interp()
            st2 = I2.new_state()
            a = [arr(I2, st2, x) for x in comp(I2, st2, n)]
            ref, st2 = I2.run("specs.qu.sim_diff", [I2.input_array(st2, "freq", ["f"], pos=True), sym("c_light", pos=True)] + a, {}, st2)
            for m, x, y in zip("pqu", v.items, ref.items):
                chk.same_value("R10.simulated", "%s: %s" % (name2, m), x, st, y, st2, where=chk.where(q2), **K)
        chk.guarded("R10.simulated", name2, two, chk.where(q2))
    w_ = chk.where(M + "create_IQU_spectra_burn")
    for fref in (True, False):
        for kind, fn in (("burn", "burn"), ("diff", "diff"), ("thin", "RMthin")):
            chk.guarded("R10.simulated", "I, Q, U " + kind, lambda: fluxes(chk, kind, fn, fref, names, w_), w_)
    w_ = chk.where(M + "create_pqu_spectra_RMthin")
    thin = lambda I, st: [I.input_array(st, "freq", ["f"], pos=True)] + [sym(n, pos=n == "frac0") for n in ("frac0", "psi0", "RM0")]
    for fn, ref, mk in (("create_pqu_spectra_RMthin", "sim_thin", thin), ("create_pqu_resid_RMthin", "sim_resid", lambda I, st: [I.input_array(st, n, ["f"]) for n in "qu"] + thin(I, st))):
        def three():
            v, st, I = value(chk, "R10.simulated", fn, M + fn, lambda I, st: (mk(I, st), {}))
            I2 = chk.interp()
            st2 = I2.new_state()
            r, st2 = I2.run("specs.qu." + ref, [sym("c_light", pos=True)] + mk(I2, st2), {}, st2)
            for m, x, y in zip("pqu", v.items, r.items):
                chk.same_value("R10.simulated", "%s: %s" % (fn, m), x, st, y, st2, where=w_, **K)
        chk.guarded("R10.simulated", fn, three, w_)


def fluxes(chk, kind, fn, fref, names, w_):
    """total flux densities: a power law about the reference frequency (by default the first channel) times the fractions"""
    short = ("fracPol", "psi0_deg", "RM_radm2")
    got = []

    def frac(I, args, kw, st, node):
        ns = ("freqArr_Hz",) + (short if kind == "thin" else names) + ("sigmaRMArr_radm2",)
        a = dict(zip(ns, args))
        a.update(kw)
        got.append([I.term(a[n], st) for n in ns if n in a])
        return Tup([I.input_array(st, n, ["f"]) for n in ("p", "q", "u")])

    def build(I, st):
        a = dict(zip(short if kind == "thin" else names, [sym(n) for n in ("frac0", "psi0", "RM0")]), fluxI=sym("i0", pos=True), SI=sym("alpha"), freqArr_Hz=I.input_array(st, "freq", ["f"], pos=True))
        if fref:
            a["freq0_Hz"] = sym("ref", pos=True)
        if kind == "burn":
            a["sigmaRMArr_radm2"] = sym("sig0")
        return [], a
    nm = "I, Q, U %s, %s reference" % (kind, "given" if fref else "no")
    v, st, I = value(chk, "R10.simulated", nm, M + "create_IQU_spectra_" + fn, build, hooks={M + "create_pqu_spectra_" + fn: frac})
    I2 = chk.interp()
    st2 = I2.new_state()
    r, st2 = I2.run("specs.qu.flux", [I2.input_array(st2, "freq", ["f"], pos=True), sym("i0", pos=True), sym("alpha"), sym("ref", pos=True) if fref else el("freq", [ZERO], pos=True), Tup([I2.input_array(st2, n, ["f"]) for n in "pqu"])], {}, st2)
    for m, x, y in zip("IQU", v.items, r.items):
        chk.same_value("R10.simulated", "%s: %s" % (nm, m), x, st, y, st2, where=w_, **K)
    want = [sym(n) for n in ("frac0", "psi0", "RM0")] + ([sym("sig0")] if kind == "burn" else [])
    chk.holds("R10.simulated", nm + ": components", len(got) == 1 and got[0][1:] == want, "the fractional spectra are computed from other components", w_)



PARS = dict(a="Uniform", psi_deg="Uniform", c="DeltaFunction", d="Constraint")  # the parameters of a stand-in model


def criteria(chk, w_):
    """best-fit values, goodness of fit and information criteria written to disk"""
    saved, calls, mods = [], [], []
    free = [k for k in PARS if PARS[k] != "Constraint"]

    def module(I, args, kw, st, node):
        pri = {}
        for k, c in PARS.items():
            cls = I.alloc(st, Ob("class", {"__name__": string(c)}))
            per = k == "psi_deg"
            o = I.alloc(st, Ob("prior", {"__class__": cls, "latex_label": string(k), "minimum": ZERO if per else sym("lo" + k), "maximum": num(180) if per else sym("hi" + k), "boundary": string("periodic") if per else NONE}))
            pri[string(k).key] = (string(k), o)
        p = I.alloc(st, Dct(pri))
        mods.append(p.id)
        return I.alloc(st, Ob("module", {"model": Ext("themodel"), "priors": p}))

    def sampler(I, args, kw, st, node):
        calls.append((kw, st.copy()))
        T.set_length("par", num(len(free)))
        mk = lambda: I.input_array(st, "samples", ["n", "par"], Ls=[length("n"), num(len(free))])
        at = {"log_likelihood_evaluations": I.input_array(st, "lnls", ["e"]), "log_evidence": sym("lnz"), "log_evidence_err": sym("dlnz"), "samples": mk(), "posterior": mk()}
        at.update({n: Ext("bilby." + n) for n in ("get_one_dimensional_median_and_error_bar", "samples_to_posterior", "plot_corner")})
        return I.alloc(st, Ob("bilby:result", at))

    def the(st):
        return next(o for o in st.heap.values() if isinstance(o, Ob) and o.cls == "bilby:result")

    def to_posterior(I, args, kw, st, node):
        k, o = next((k, o) for k, o in st.heap.items() if isinstance(o, Ob) and o.cls == "bilby:result")
        st.heap[k] = Ob(o.cls, dict(o.attrs, posterior=I.alloc(st, st.heap[o.attrs["samples"].id])))
        return NONE

    def summary(I, args, kw, st, node):
        k = (list(args) + list(kw.values()))[0]
        i = next(j for j, n in enumerate(free) if string(n) == k)
        col = st.heap[the(st).attrs["posterior"].id]
        one = I.alloc(st, Arr(col.axes[:1], subst(col.expr, {col.axes[1].label: num(i)})))
        v, _ = I.run("specs.qu.summary", [one], {}, st)
        return I.alloc(st, Ob("summary", dict(zip(("median", "plus", "minus"), v.items))))
    from .p08 import result as fitresult

    def isinst(I, args, kw, st, node):
        """numbers computed with numpy are floating-point"""
        if isinstance(args[0], E) and args[0].kind in ("poly", "ite"):
            return TRUE if "float" in I.term(args[1], st).key else FALSE
        return NotImplemented
    none = lambda I, a, k, st, node: NONE
    hooks = {"themodel": themodel(""), "builtins.isinstance": isinst, Q + "load_model": module, "json.dump": lambda I, a, k, st, node: (saved.append((a[0], st.copy())), NONE)[1], "bilby.run_sampler": sampler, M + "toscalar": lambda I, a, k, st, node: a[0],
             "bilby.get_one_dimensional_median_and_error_bar": summary, "bilby.samples_to_posterior": to_posterior, "bilby.plot_corner": none, "RMutils.util_plotTk.plot_Ipqu_spectra_fig": none,
             M + "create_frac_spectra": lambda I, a, k, st, node: Tup([I.input_array(st, n, ["f"]) for n in ("Imod", "q", "u", "dq", "du")] + [fitresult(I, st, "log")]),
             M + "calculate_StokesI_model": lambda I, a, k, st, node: I.input_array(st, "curve", ["h"])}

    def build(I, st):
        d = I.alloc(st, Lst([I.input_array(st, n, ["f"], pos=n == "freq") for n in ("freq", "I", "Q", "U", "dI", "dQ", "dU")]))
        return [d, num(1)], dict(nBits=num(32))
    v, st, I = value(chk, "R10.criteria", "run_qufit", Q + "run_qufit", build, hooks=hooks)
    if len(saved) != 1 or len(calls) != 1:
        raise Abort("results saved %d times, sampler called %d times" % (len(saved), len(calls)))
    d, s = saved[0]
    got = {T.str_const(ke): x for ke, x in s.heap[d.id].ent.values()}

    def mk(I2, st2):
        a = [I2.input_array(st2, n, ["f"], pos=n == "freq") for n in ("freq", "q", "u", "dq", "du")]
        smp = [I2.alloc(st2, Arr((ax("n"),), el("samples", [lab("n"), num(i)]))) for i in range(len(free))]
        return a, smp
    I2 = chk.interp(hooks={"specs.qu.stand_in": themodel("")})
    st2 = I2.new_state()
    a, smp = mk(I2, st2)
    lam = {}
    pv = {}
    for i, k in enumerate(free):
        r, st2 = I2.run("specs.qu.angle" if k == "psi_deg" else "specs.qu.summary", [smp[i]], {}, st2)
        pv[k] = r.items
    want, st2 = I2.run("specs.qu.goodness", a + [sym("c_light", pos=True), I2.alloc(st2, Dct({string(k).key: (string(k), pv[k][0]) for k in free})), num(sum(PARS[k] == "Uniform" for k in free)), I2.input_array(st2, "lnls", ["e"])], {}, st2)
    for n, w in zip(("dof", "chiSq", "chiSqRed", "AIC", "AICc", "BIC"), want.items):
        chk.same_value("R10.criteria", n, got[n], s, w, st2, where=w_, **K)
    chk.same("R10.criteria", "evidence", got.get("ln(EVIDENCE)", got.get("ln(EVIDENCE) ")), sym("lnz"), where=w_, **K)
    kw, sc = calls[0]
    o = kw.get("likelihood")
    lk = sc.heap.get(o.id) if isinstance(o, Ref) else None
    if not isinstance(lk, Ob):
        raise Abort("the sampler is not given a likelihood")
    r = []
    for tag in ("1", "2"):
        s1 = sc.copy()
        s1.heap[o.id] = Ob(lk.cls, dict(lk.attrs, parameters=I.alloc(s1, Dct({string(k).key: (string(k), sym("p%s:%s" % (tag, k))) for k in free}))))
        c = I.call(I.getattr(o, "log_likelihood", s1, None), [], {}, s1, None)
        g, _ = I2.run("specs.qu.likelihood", a + [sym("c_light", pos=True), I2.alloc(st2, Dct({string(k).key: (string(k), sym("p%s:%s" % (tag, k))) for k in free}))], {}, st2)
        r.append((I.scalar(c, s1), I2.scalar(g, st2)))
    chk.same("R10.likelihood", "likelihood given to the sampler", sub(r[0][0], r[1][0]), sub(r[0][1], r[1][1]), where=w_, **K)
    chk.holds("R10.prior", "priors given to the sampler", isinstance(kw.get("priors"), Ref) and len(mods) >= 1 and kw["priors"].id in mods, "the sampler does not use the priors of the model", w_)
    for j, n in enumerate(("values", "errPlus", "errMinus")):
        items = s.heap[got[n].id].items if isinstance(got[n], Ref) and isinstance(s.heap[got[n].id], Lst) else None
        if items is None or len(items) != len(free):
            raise Abort("%s is not a list of the parameters" % n)
        for k, x in zip(free, items):
            chk.same_value("R10.values", "%s of %s" % (n, "an angle" if k == "psi_deg" else "parameter " + k), x, s, pv[k][j], st2, where=w_, **K)
