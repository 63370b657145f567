"""fitted RMSF width: which samples are fitted, with which model, and what is returned"""
from .common import *
from sa.rint import loop_table, u01

FN = "RMutils.util_RM.fit_rmsf"
PK = "RMutils.util_RM.detect_peak"
GS = "RMutils.util_RM.gauss1D"
P = [sym("amp"), sym("off"), sym("wid", pos=True)]


def lens(seed, t):
    return dict(d=15 + t % 5)


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "lb", *a)
    if name in ("isnan", "isnan?"):
        return False
    if idx is None:
        return None
    if name == "x":
        return idx[0] * (0.5 + u("d")) - 3
    if name == "y":
        c, s = 6 + 3 * u("c"), (0.5 if u("n") < 0.4 else 1) + 2 * u("s")
        if u("q") < 0.2:  # values that hit the threshold exactly
            return (0, 0, 0, 2, 4, 6, 8, 9, 10, 8, 6, 4, 2)[idx[0]] * 0.1 if idx[0] < 13 else 0.0
        if idx[0] >= 13:  # the lobe ends inside the grid
            return -0.1
        return 2.7183 ** (-((idx[0] - c) / s) ** 2) + 0.4 * u("r", idx) - 0.2
    return None


def run(chk):
    w = chk.where(FN)
    got = {}

    def fitter(I, args, kw, st, node):
        got["args"], got["kw"] = args, kw
        p = I.alloc(st, Lst(list(P)))
        r = I.call(args[0] if args else kw["fcn"], [p], {}, st, node)
        return Ob("mpfit", dict(call=r))

    def args(I, st):
        return [I.input_array(st, "x", ["d"]), I.input_array(st, "y", ["d"])]
    r = value(chk, "R19", "fit_rmsf", FN, lambda I, st: (args(I, st), {}), hooks={"RMutils.mpfit.mpfit": fitter})
    I2 = chk.interp()
    st2 = I2.new_state()
    want, st2 = I2.run("specs.lobe.residual", args(I2, st2) + [num(0.4)] + P, {}, st2)
    want = chk.elements(want, 3)
    if r:
        v, st, I = r
        chk.holds("R19.result", "the fitter itself is returned", isinstance(v, Ob) and v.cls == "mpfit", repr(v)[:200], w)
        if isinstance(v, Ob) and v.cls == "mpfit":
            kw = dict(where=w, lens=lens, vals=vals, loops=loop_table(I, I2))
            chk.guarded("R19.fit", "fit", lambda: fit(chk, v, got, st, want, st2, w, kw), w)
    w = chk.where(PK)
    for lv in (None, sym("level", pos=True)):
        nm = "threshold " + ("as it defaults" if lv is None else "given")
        r = value(chk, "R19.lobe", nm, PK, lambda I, st: ([I.input_array(st, "y", ["d"])] + ([] if lv is None else [lv]), {}))
        if r:
            I3 = chk.interp()
            st3 = I3.new_state()
            ref, st3 = I3.run("specs.lobe.mask", [I3.input_array(st3, "y", ["d"]), num(0.4) if lv is None else lv], {}, st3)
            chk.same_value("R19.lobe", nm, chk.deref(r[0], r[1]), r[1], ref, st3, where=w, lens=lens, vals=vals, loops=loop_table(r[2], I3))
    w = chk.where(GS)
    for deflt in (False, True):
        nm = "defaults" if deflt else "all given"

        def curve():
            I = chk.interp()
            st = I.new_state()
            f, st = I.run(GS, [] if deflt else [P[0], P[1], P[2]], {}, st)
            x = I.input_array(st, "x", ["d"])
            y = I.call(f, [x], {}, st, None)
            chk.absorb(I)
            a, b, c = (ONE, ZERO, ONE) if deflt else P
            I4 = chk.interp()
            st4 = I4.new_state()
            ref, st4 = I4.run("specs.lobe.gauss", [I4.input_array(st4, "x", ["d"]), a, b, c], {}, st4)
            chk.same_value("R19.gauss", nm, y, st, ref, st4, where=w)
        chk.guarded("R19.gauss", nm, curve, w)
    return dict(floor=12, explanation="what fit_rmsf hands to the fitter (residuals, parameters, their settings), the lobe mask and the Gaussian compared with specs/lobe")


def fit(chk, v, got, st, want, st2, w, kw):
    back = chk.elements(v.attrs["call"], 2)
    chk.same("R19.status", "no failure reported to the fitter", back[0], ZERO, where=w)
    chk.same_value("R19.residual", "model minus data over the lobe", back[1], st, want[0], st2, **kw)
    opts = {k: x for k, x in got["kw"].items() if k not in ("fcn", "parinfo", "quiet", "xall")}
    chk.holds("R19.options", "nothing else is asked of the fitter", not opts and len(got["args"]) <= 1, "also given: %s" % sorted(opts), w)
    info = chk.elements(chk.deref(got["kw"]["parinfo"], st), 3) if "parinfo" in got["kw"] else None
    if info is None:
        chk.holds("R19.parameters", "three parameters", False, "the fitter is given no parameters", w)
        return
    for k, d in enumerate(info):
        nm = ("amplitude", "position", "width")[k]
        d = chk.deref(d, st)
        e = {"".join(map(str, kk.d)): x for kk, x in d.ent.values()}
        bound = [n for n in ("limited", "limits", "tied", "mpminstep", "mpmaxstep") if n in e]
        chk.holds("R19.free", nm, not bound and (e.get("fixed", FALSE) in (FALSE, ZERO)), "%s is %s" % (nm, ", ".join(bound) or "fixed"), w)
        chk.same_value("R19.start", nm, e["value"], st, (ONE, want[1], want[2])[k], st2, **kw)
