"""one set of channels, weights, reference wavelength and depth grid feeds the FDF and its RMSF"""
from .tools import *
from sa.rint import loop_table

FD, RM = U + "do_rmsynth_planes", U + "get_rmsf_planes"
W = {S1: "1D", S3: "3D"}


def run(chk):
    for superres in (False, True):
        for kind in ("variance", "uniform"):
            for bits in (32, 64):
                for extra in ("7 columns", "5 columns", "model supplied"):
                    name = "1D %s %s nBits=%d %s" % ("super-resolution" if superres else "standard", kind, bits, extra)
                    chk.guarded("R3", name, lambda: one(chk, name, S1, superres, kind, bits, extra), chk.where(S1))
                for extra in ("Q,U only", "with Stokes I"):
                    name = "3D %s %s nBits=%d %s" % ("super-resolution" if superres else "standard", kind, bits, extra)
                    for only in (None, "not_rmsf", "not_rmsynth"):
                        for rms in (True, False):
                            nm = name + (", %s" % only if only else "") + ("" if rms else ", no noise given")
                            chk.guarded("R3", nm, lambda: one(chk, nm, S3, superres, kind, bits, extra, only, rms), chk.where(S3))
    chk.assumptions += ["frequencies finite and monotonic", "the reference wavelength lies inside the band", "Stokes I model cubes are non-zero and contain no NaN (as the tool documents)"]
    return dict(floor=200, explanation="arguments of every call to the transform and to the RMSF inside both drivers, and the returned cubes, compared with one common set of channels, weights, reference wavelength and grid")


def one(chk, name, q, superres, kind, bits, extra, only=None, rms=True):
    w_ = chk.where(q)
    kw = dict(weightType=string(kind), nBits=num(bits))
    one_d = q == S1
    if one_d:
        c, v, st, I = synth1d(chk, superres, fields=5 if extra == "5 columns" else 7, model=extra == "model supplied", **kw)
    else:
        c, v, st, I = synth3d(chk, superres, stokesI=extra == "with Stokes I", rms=rms, **dict(kw, **({only: TRUE} if only else {})))
    fd, s1 = c.one(FD) if only != "not_rmsynth" else (None, None)
    rm, s2 = c.one(RM) if only != "not_rmsf" else (None, None)
    for n, a in ((FD, fd), (RM, rm)):
        if a is None and not chk.holds("R3.partial", name + ": only what is asked for", not [x for x in c.log if x[0] == n], "%s is called" % n, w_):
            return
    pix = [] if one_d else ["y", "x"]
    data = ["f"] + pix
    fr = lambda J, s: A(J, s, "freq", ["f"], pos=True)
    l2, sl, _ = ref(chk, "lam2", lambda J, s: [fr(J, s)])
    if one_d:
        wt, sw, _ = ref(chk, "weights", lambda J, s: [string(kind), J.run("specs.tools.sigma", arrs(J, s, ("dq", "du")), {}, s)[0]])
    else:
        wt, sw, _ = ref(chk, "weights", lambda J, s: [string(kind if rms else "uniform"), A(J, s, "rms", ["f"], pos=True)])
    arg = lambda a, s, n, want, sw, rule="R3.inputs", **k: chk.same_value(rule, "%s: %s of %s" % (name, n, "FDF" if a is fd else "RMSF"), a.get(n, NONE), s, want, sw, where=w_, **dict(K, **k))
    for a, s in ((fd, s1), (rm, s2)):
        if a is None:
            continue
        arg(a, s, "lambdaSqArr_m2", l2, sl)
        arg(a, s, "weightArr", wt, sw)
        arg(a, s, "nBits", num(bits), sw)
    if only is None:
        chk.same_value("R3.grid", name + ": same grid", rm["phiArr_radm2"], s2, fd["phiArr_radm2"], s1, where=w_, **K)
    else:
        c2 = synth3d(chk, superres, stokesI=extra == "with Stokes I", rms=rms, **kw)[0]
        g, sg = c2.one(FD)
        a, s = (rm, s2) if fd is None else (fd, s1)
        chk.same_value("R3.grid", name + ": grid of the full run", a["phiArr_radm2"], s, g["phiArr_radm2"], sg, where=w_, **K)
    for n, letter in (("dataQ", "Q"), ("dataU", "U")) if fd is not None else ():
        if one_d:
            arg(fd, s1, n, A(I, s1, letter.lower(), data), s1)
        else:
            e = el(letter, [lab(l) for l in data])
            if extra == "with Stokes I":
                e = div(e, el("Icube", [lab(l) for l in data]))
            arg(fd, s1, n, arr_of(data, e), s1)
    names = ("q", "u") if one_d else ("Q", "U")
    frac = (lambda e: div(e, el("Icube", [lab(l) for l in data]))) if extra == "with Stokes I" and not one_d else lambda e: e
    bad, sb, _ = ref(chk, "unusable", lambda J, s: [J.alloc(s, arr_of(data, frac(el(n, [lab(l) for l in data])))) for n in names])
    want = ZERO if superres else NONE
    if fd is not None:
        chk.same("R3.reference", name + ": reference given to the transform", I.scalar(fd.get("lam0Sq_m2", NONE), s1), want, where=w_)
    if rm is not None:
        arg(rm, s2, "mskArr", bad, sb, "R3.mask")
        chk.same("R3.reference", name + ": reference given to the RMSF", I.scalar(rm["lam0Sq_m2"], s2), want if fd is None else ZERO if superres else sym("lam0", pos=True), where=w_)
        fitting(chk, name, I, rm, s2, superres, w_)
    outputs(chk, name, c, v, st, I, s2, one_d, superres, extra, only, data, fr, l2, sl, w_)


def fitting(chk, name, I, rm, s2, superres, w_):
    chk.same("R3.fit", name + ": RMSF fit requested", truth(I.scalar(rm.get("fitRMSF", FALSE), s2)), TRUE if superres else not_(TRUE), where=w_)
    chk.same("R3.fit", name + ": real part fitted", truth(I.scalar(rm.get("fitRMSFreal", FALSE), s2)), TRUE if superres else not_(TRUE), where=w_)
    chk.same("R3.fit", name + ": doubled grid", truth(I.scalar(rm.get("double", TRUE), s2)), TRUE, where=w_)


def outputs(chk, name, c, v, st, I, s2, one_d, superres, extra, only, data, fr, l2, sl, w_):
    if one_d:
        out = st.heap[v.items[1].id].ent
        get = lambda n: out[string(n).key][1]
        chk.same_value("R3.outputs", name + ": RMSFArr", get("RMSFArr"), st, A(I, s2, "RMSF", ["k2"], real=False), s2, where=w_)
        chk.same_value("R3.outputs", name + ": phi2Arr_radm2", get("phi2Arr_radm2"), st, A(I, s2, "phi2", ["k2"]), s2, where=w_)
        chk.same_value("R3.outputs", name + ": freqArr_Hz", get("freqArr_Hz"), st, fr(I, s2), s2, where=w_)
        return
    r = chk.deref(v, st)
    order = {None: ("FDF", "phi", "RMSF", "phi2", "fwhm", "stat", "lam0", "lam2"), "not_rmsf": ("FDF", "phi", "lam0", "lam2"), "not_rmsynth": ("RMSF", "phi2", "fwhm", "stat", "lam0")}[only]
    it = chk.elements(r, len(order))
    if not chk.holds("R3.outputs", name + ": number of outputs", it is not None, "not %d" % len(order), w_):
        return
    out = dict(zip(order, it))
    F = el("FDF", [lab("k"), lab("y"), lab("x")], real=False)
    if "FDF" not in out:
        pass
    elif extra == "with Stokes I" and not superres:
        I0, si, J = ref(chk, "interpolate", lambda J, s: [fr(J, s), A(J, s, "Icube", data), T.div(sym("c_light", pos=True), T.sqrt(sym("lam0", pos=True)))])
        I0 = si.heap[I0.id]
        e = subst(I0.expr, {I0.axes[0].label: lab("y"), I0.axes[1].label: lab("x")})
        T.set_length("m", length("f"))
        f_ = lambda l: el("freq", [lab(l)], pos=True)
        chk.same_value("R3.flux", name + ": FDF in flux units", out["FDF"], st, arr_of(["k", "y", "x"], mul(F, e)), st, where=w_, loops=loop_table(I, J), **K)
    elif extra != "with Stokes I":
        chk.same_value("R3.flux", name + ": FDF", out["FDF"], st, arr_of(["k", "y", "x"], F), st, where=w_)
    for n, l in (("RMSF", ["k2", "y", "x"]), ("phi2", ["k2"]), ("fwhm", ["y", "x"]), ("stat", ["y", "x"])):
        if n in out:
            chk.same_value("R3.outputs", "%s: output %s" % (name, n), out[n], st, A(I, st, n, l, real=n != "RMSF"), st, where=w_)
    chk.same_value("R3.outputs", name + ": output lam0", out["lam0"], st, ZERO if superres else sym("lam0", pos=True), st, where=w_)
    if "phi" in out:
        fd, s1 = c.one(FD)
        chk.same_value("R3.outputs", name + ": output phi", out["phi"], st, fd["phiArr_radm2"], s1, where=w_, **K)
    if "lam2" in out:
        chk.same_value("R3.outputs", name + ": output lam2", out["lam2"], st, l2, sl, where=w_, **K)
