"""RM-CLEAN: do_rmclean_hogbom against a reference implementation analysed by the same engine."""
from .common import *
from sa.rint import loop_table, u01

FN = "RMutils.util_RM.do_rmclean_hogbom"


def inputs(I, st, nd):
    pix = PIX[nd]
    T.set_length("k2", add(length("k"), mul(num(2), length("npad"))))
    return dict(dirtyFDF=I.input_array(st, "dirty", ["k"] + pix, real=False), phiArr_radm2=I.input_array(st, "phi", ["k"]),
                RMSFArr=I.input_array(st, "rmsf", ["k2"] + pix, real=False), phi2Arr_radm2=I.input_array(st, "phi2", ["k2"]),
                fwhmRMSFArr=I.input_array(st, "fwhm", pix, pos=True), cutoff=sym("cutoff"), maxIter=sym("maxIter"), gain=sym("gain"), window=sym("window"))


def lens(seed, t):
    """finite models: grids of 4-6 samples padded by 2-4, 1-3 pixels"""
    n = 4 + (t // 2) % 3
    return dict(k=n, npad=(n + 1) // 2 + (t // 3) % 2, p=1 + t % 3, x=1 + t % 2, y=2 - t % 2)


def vals(m, name, idx):
    """models in which both CLEAN stages iterate: uniform grid, thresholds inside the range of the residuals"""
    u = lambda *a: u01(m.seed, "clean", *a)
    if name == "isnan":
        return False
    if idx is None:
        return None
    if name in ("phi", "phi2"):
        return (idx[0] - 1.3) * (0.5 + u("dphi"))
    if name == "fwhm":
        return (0.5 + u("dphi")) * (0.4 + 6.5 * u("fw", idx))
    if name == "dirty":
        return complex(1.6 * u("dr", idx) - 0.8, 1.6 * u("di", idx) - 0.8)
    if name == "rmsf":
        if idx[0] == int(2 + 3 * u("pk", idx[1:])):
            return 0.9 + 0.2 * u("rp", idx[1:]) + 0.1j
        return complex(0.4 * u("rr", idx) - 0.2, 0.4 * u("ri", idx) - 0.2)
    if name == "gain":
        return 0.2 + 0.7 * u("g")
    if name == "maxIter":
        return float(1 + int(9 * u("mi")))
    if name == "cutoff":
        return 0.3 + 0.6 * u("c")
    if name == "window":
        return (0.05 + 0.8 * u("w")) * (0.3 + 0.6 * u("c")) if u("wz") > 0.2 else 0.0
    return None


def run(chk):
    w_ = chk.where(FN)
    for nd in (1, 2, 3):
        for pool in (False, True):
            name = "%dD %s" % (nd, "process pool" if pool else "serial")

            def build(I, st):
                kw = inputs(I, st, nd)
                if pool:
                    kw["pool"] = I.alloc(st, Ob("ext:pool", {}))
                return [], kw
            r = value(chk, "R5", name, FN, build)
            if r:
                chk.guarded("R5", name, lambda: against(chk, name, nd, *r, w_), w_)
    chk.assumptions += ["the RMSF grid is longer than the FDF grid by an even number of samples", "residuals contain no NaN"]
    return dict(floor=24, explanation="CLEAN outputs (restored FDF, components, iteration map, residual) of the whole wrapper compared with a reference CLEAN, loop recurrences included, for 1D/2D/3D input")


def reference(chk, nd, st):
    pix = [lab(l) for l in PIX[nd]]
    I2 = chk.interp()
    st2 = I2.new_state()
    A = lambda e, l: I2.alloc(st2, Arr((ax(l),), e))
    T.set_length("k2", add(length("k"), mul(num(2), length("npad"))))
    args = [A(el("dirty", [lab("k")] + pix, real=False), "k"), A(el("rmsf", [lab("k2")] + pix, real=False), "k2"), A(el("phi", [lab("k")]), "k"),
            length("npad"), el("fwhm", pix, pos=True) if pix else el("fwhm", [], pos=True), sym("cutoff"), sym("maxIter"), sym("gain"), sym("window")]
    v, st2 = I2.run("specs.clean.clean", args, {}, st2)
    return v, st2, I2


def against(chk, name, nd, v, st, I, where):
    pixl = PIX[nd]
    pix = [lab(l) for l in pixl]
    ref, st2, I2 = reference(chk, nd, st)
    if isinstance(v, Phi):
        v = v.b if isinstance(v.b, Tup) and v.b.names else v.a
    if isinstance(v, Tup) and all(x is NONE for x in v.items):
        chk.holds("R5.clean", name + ": accepted", False, "input of matching sizes is refused", where)
        return
    long_enough = compare(">=", mul(num(2), length("npad")), length("k"))
    T.set_length("b", length("k"))
    hit = compare(">=", red("max", "b", T.absv(el("dirty", [lab("b")] + pix, real=False)), length("k")), sym("cutoff"))

    def arr(i):
        a = st2.heap[ref.items[i].id]
        return subst(a.expr, {a.axes[0].label: lab("k")})
    d = el("dirty", [lab("k")] + pix, real=False)
    n = I2.scalar(ref.items[2], st2)
    clean_, comp, resid = arr(0), arr(1), arr(3)
    want = dict(cleanFDF=(["k"], ite(hit, add(clean_, resid), d)), ccArr=(["k"], ite(hit, comp, ZERO)), iterCountArr=([], ite(hit, n, ZERO)), residFDF=(["k"], ite(hit, resid, d)))
    T.set_length("b2", length("k"))
    nonan = not_(red("any", "b2", isnan(el("dirty", [lab("b2")] + pix, real=False)), length("k")))
    for f, (l, e) in want.items():
        chk.same_value("R5.clean", "%s.%s" % (name, f), field(v, f), st, arr_of(l + pixl, e), st2, assume=and_(long_enough, nonan), where=where, loops=loop_table(I, I2), lens=lens, vals=vals)
