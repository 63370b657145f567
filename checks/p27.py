"""complexity metrics: additional scatter and second moment"""
from .common import *
from sa.rint import loop_table, u01

U = "RMutils.util_RM."
SA, QU, MF, CP = U + "calc_sigma_add", U + "measure_qu_complexity", U + "measure_fdf_complexity", U + "cdf_percentile"


def lens(seed, t):
    return dict(f=2 + t % 6, s=4 + t % 6, d=2 + t % 4)


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "cx", name, *a)
    if name in ("dy", "dq", "du"):
        return 0.2 + u(*idx)
    if name == "y":
        return (1.5 + 2 * u(*idx)) * (1 if u("sign", *idx) > 0.5 else -1)
    if name == "freq":
        return 1 + u(*idx)
    return None


K = dict(lens=lens, vals=vals)


def run(chk):
    w_ = chk.where(SA)
    T.FINITE.update(("dy", "dq", "du"))
    chk.assumptions.append("errors of the channels are finite (the data themselves may be missing)")
    chk.guarded("R27.scatter", "calc_sigma_add", lambda: scatter(chk, w_), w_)
    chk.guarded("R27.residual", "measure_qu_complexity", lambda: residual(chk, chk.where(QU)), chk.where(QU))
    chk.guarded("R27.moment", "measure_fdf_complexity", lambda: moment(chk, chk.where(MF)), chk.where(MF))
    return dict(floor=10, explanation="the scatter posterior summary, the normalised residuals of the thin model and the second moment are computed as terms from the sources and compared with specs/complexity.py")


def scatter(chk, w_):
    def build(I, st):
        a = lambda n: I.input_array(st, n, ["f"])
        return [], dict(xArr=a("x"), yArr=a("y"), dyArr=a("dy"), yMed=sym("med"), noise=sym("noise"), nSamp=length("s"), suffix=string("Z"))
    v, st, I = value(chk, "R27.scatter", "calc_sigma_add", SA, build)
    I2 = chk.interp()
    st2 = I2.new_state()
    ref, st2 = I2.run("specs.complexity.sigma_add", [I2.input_array(st2, "y", ["f"]), I2.input_array(st2, "dy", ["f"]), sym("med"), length("s")], {}, st2)
    some = anyof("f'", not_(isnan(el("y", [lab("f'")]))), "f")
    d = chk.deref(v.items[0], st)
    for n, r in zip(("sigmaAddZ", "dSigmaAddMinusZ", "dSigmaAddPlusZ"), ref.items):
        chk.same_value("R27.scatter", n, d.ent[string(n).key][1], st, r, st2, assume=some, where=w_, loops=loop_table(I, I2), **K)


def residual(chk, w_):
    seen = {}

    def hook(I, args, kw, st, node):
        names = ("xArr", "yArr", "dyArr", "yMed", "noise", "nSamp", "suffix")
        a = dict(zip(names, args))
        a.update(kw)
        s = next((k for k in "QUC" if string(k) == I.term(a["suffix"], st)), None)
        if s is None:
            raise Abort("suffix of the scatter metrics is not a literal")
        seen.setdefault(s, []).append((a, st.copy() if hasattr(st, "copy") else st))
        ks = [(n + s, string(n + s)) for n in ("sigmaAdd", "dSigmaAddMinus", "dSigmaAddPlus")]
        return Tup([I.alloc(st, Dct({k.key: (k, sym("r:" + k_)) for k_, k in ks})), I.alloc(st, Dct({}))])

    names = ("qArr", "uArr", "dqArr", "duArr")

    def build(I, st):
        d = {n: I.input_array(st, m, ["f"]) for n, m in zip(names, ("q", "u", "dq", "du"))}
        return [], dict(d, freqArr_Hz=I.input_array(st, "freq", ["f"], pos=True), fracPol=sym("frac", pos=True), psi0_deg=sym("psi"), RM_radm2=sym("rm"))
    v, st, I = value(chk, "R27.residual", "measure_qu_complexity", QU, build, hooks={SA: hook})
    I2 = chk.interp()
    st2 = I2.new_state()
    thin, st2 = I2.run("specs.complexity.thin", [I2.input_array(st2, "freq", ["f"], pos=True), sym("c_light", pos=True), sym("frac", pos=True), sym("psi"), sym("rm")], {}, st2)
    _, q, u = thin.items
    for s in "QUC":
        if len(seen.get(s, [])) != 1:
            raise Abort("scatter of %s measured %d times" % (s, len(seen.get(s, []))))
        a, sa = seen[s][0]
        want, st3 = I2.run("specs.complexity.normalised", [string(s), q, u] + [I2.input_array(st2, n, ["f"]) for n in ("q", "u", "dq", "du")], {}, st2)
        chk.same_value("R27.residual", s + ": residual in units of its error", a["yArr"], sa, want.items[0], st3, where=w_, **K)
        chk.same_value("R27.residual", s + ": error", a["dyArr"], sa, want.items[1], st3, where=w_, **K)
        chk.same("R27.residual", s + ": expected residual", a.get("yMed", NONE), ZERO, where=w_)
    d = chk.deref(v.items[0], st)
    for s in "QUC":
        for n in ("sigmaAdd", "dSigmaAddMinus", "dSigmaAddPlus"):
            k = string(n + s).key
            chk.same("R27.residual", "reported " + n + s, d.ent[k][1] if k in d.ent else NONE, sym("r:" + n + s), where=w_)


def moment(chk, w_):
    mk = lambda I, st: (I.input_array(st, "cc", ["d"], real=False), I.input_array(st, "phi", ["d"]))

    def build(I, st):
        f, p = mk(I, st)
        return [], dict(FDF=f, phiArr=p)
    v, st, I = value(chk, "R27.moment", "measure_fdf_complexity", MF, build)
    I2 = chk.interp()
    st2 = I2.new_state()
    ref, st2 = I2.run("specs.complexity.mom2", list(mk(I2, st2)), {}, st2)
    chk.same_value("R27.moment", "second moment", v, st, ref, st2, where=w_, **K)
