"""Stokes I model cubes: per-pixel fits, coefficient maps and their files"""
from .common import *
from .cli import Cli
from .fs import FS, cube, cube_header
from .p15 import file_, files, get, header, keys, plane
from .tools import Calls, bound
from sa.rint import loop_table, u01

FI = "RMtools_3D.do_fitIcube."
UM = "RMutils.util_misc."
FIT = UM + "fit_StokesI_model"
RA, DEC, FR, ST = ("RA---SIN", "x"), ("DEC--SIN", "y"), ("FREQ", "f"), ("STOKES", None)
LAYOUTS = {"RA, DEC, FREQ": [RA, DEC, FR], "RA, DEC, FREQ, STOKES": [RA, DEC, FR, ST], "RA, DEC, STOKES, FREQ": [RA, DEC, ST, FR], "one row": [RA, ("DEC--SIN", None), FR], "RA, DEC, Frequency, STOKES": [RA, DEC, ("Frequency", "f"), ST], "RA, DEC, STOKES, ObsFreq": [RA, DEC, ST, ("ObsFreq", "f")]}
PARTS = ("freqArr", "IArr", "dIArr", "polyOrd", "fit_function")


def fit_terms(ts):
    par = lambda k: fn("fit:" + k, *ts, real=True)
    return {"p": [par("p%d" % i) for i in range(6)], "e": [par("e%d" % i) for i in range(6)], "cov": [[par("c%d%d" % (i, j)) for j in range(6)] for i in range(6)], "ref": fn("fit:ref", *ts, real=True)}


def fit_hook(I, args, kw, st, node):
    """the fit of one spectrum: an unknown function of everything it is given"""
    a = bound(I, FIT, args, kw)
    ts = [I.term(a.get(n, NONE), st) for n in PARTS]
    t = fit_terms(ts)
    arr = lambda v: I.call(Ext("numpy.array"), [v], {}, st, node)
    lst = lambda l: I.alloc(st, Lst([lst(x) if isinstance(x, list) else x for x in l]))
    d = {"params": arr(lst(t["p"])), "perror": arr(lst(t["e"])), "pcov": arr(lst(t["cov"])), "polyOrd": a["polyOrd"], "reference_frequency_Hz": t["ref"], "fit_function": a["fit_function"]}
    d.update({k: fn("fit:" + k, *ts, real=True) for k in ("fitStatus", "chiSq", "chiSqRed", "nIter", "AIC", "dof")})
    return I.run(UM + "FitResult", [], d, st)[0]


def lens(seed, t):
    return dict(f=2 + t % 3, y=1 + t % 3, x=1 + (t // 3) % 3)


K = dict(lens=lens)


def run(chk):
    w_ = chk.where(FI + "make_model_I")
    for nm, axes in LAYOUTS.items():
        for i, (mask, order, kind, verbose) in enumerate(((False, 2, "log", False), (True, 2, "linear", True), (True, -3, "log", False), (False, 0, "log", True), (True, 5, "log", False))):
            if i > 1 and nm != "RA, DEC, FREQ":
                continue
            n2 = "%s, %s mask, order %d %s%s" % (nm, "with" if mask else "no", order, kind, ", verbose" if verbose else "")
            chk.guarded("R18.maps", n2, lambda: one(chk, n2, axes, mask, order, kind, verbose, w_), w_)
    return dict(floor=100, explanation=EXPL)


EXPL = ("The value-numbering interpreter runs the command line of rmtools_fitIcube (argparse and the FITS layer modelled, the fit of one spectrum an uninterpreted function of everything it is given, worker pools modelled as order-preserving maps without side effects) on symbolic cubes of several axis layouts, with and without the source mask, for several orders and kinds, serial and with a progress bar. "
        "Every pixel of every file is compared with the specification (noise in two passes of the MAD, emission mask, model curve of that pixel's own fit, coefficient N in file coeffN, its error, reference frequency and covariance), headers with those of the input, and what rmtools_rescaleIcube reads back from these files with what was fitted.")


def one(chk, nm, axes, mask, order, kind, verbose, w_):
    fs, hd = FS(), header(axes, {"BITPIX": num(-32)})
    cli = Cli(dict(fitsI=string("in/I.fits"), freq_file=string("in/freq.dat"), fit_function=string(kind), polyOrd=num(order), num_cores=sym("cores", pos=True), chunk_size=sym("chunk", pos=True), threshold=sym("thr"), prefixOut=string("m_"), outDir=string("out")))
    if mask:
        cli.given["apply_mask"] = TRUE
    if verbose:
        cli.given["verbose"] = TRUE
    h = fs.hooks()
    h.update(cli.hooks())
    h[FIT] = fit_hook
    I = chk.interp(hooks=h)
    I.keep_history = True
    st = I.new_state()
    d = cube(I, st, "I", axes)
    fs.files["in/I.fits"] = [(st.heap[d.id], {string(k).key: (string(k), v) for k, v in hd.items()})]
    fs.text["in/freq.dat"] = ("array", arr_of(["f"], el("nu", [lab("f")], pos=True)))
    r = files(chk, "R18.maps", nm, lambda: I.run(FI + "main", [], {}, st), w_)
    chk.absorb(I)
    keys(chk, "R18.files", nm, I, w_)
    if r is None:
        return
    v, st = r
    J = chk.interp()
    s = J.new_state()
    dims = [l or 1 for c, l in reversed(axes) if l != "f" and c != "STOKES"]
    pix = [lab(l) if l != 1 else ZERO for l in dims]
    data = J.alloc(s, arr_of(["f"] + dims, el("I", [lab("f")] + [lab(l) for l in dims if l != 1], real=True)))
    nz, s = J.run("specs.stokesi.noise_and_mask", [data, sym("thr")], {}, s)
    rms, sel = nz.items
    use = T.truth(J.scalar(J.getitem(sel, Tup(pix), s, None), s)) if mask else TRUE
    spec = J.alloc(s, arr_of(["f"], el("I", [lab("f")] + [lab(l) for l in dims if l != 1], real=True)))
    nu = J.input_array(s, "nu", ["f"], pos=True)
    t = fit_terms([J.term(a, s) for a in (nu, spec, rms, num(order), string(kind))])
    cur, s = J.run("specs.stokesi.cube_curve", [string(kind), J.alloc(s, Lst(t["p"])), nu, t["ref"]], {}, s)
    cur = J.scalar(J.getitem(cur, lab("f"), s, None), s)
    k = dict(K, where=w_, loops=loop_table(I, J))
    chk.same_value("R18.maps", nm + ": noise.dat", I.alloc(st, fs.text["out/m_noise.dat"][1]), st, rms, s, **k)
    sel2 = lambda e: ite(use, e, T.NAN)
    want = {"model.i": (["f"] + dims, sel2(cur)), "mask": (dims, ite(use, ONE, T.NAN)), "reffreq": (dims, sel2(t["ref"]))}
    for i in range(abs(order) + 1):
        want["coeff%d" % i] = (dims, sel2(t["p"][5 - i]))
        want["coeff%derr" % i] = (dims, sel2(t["e"][5 - i]))
    for n, (ds, e) in want.items():
        x = file_(chk, "R18.files", nm, fs, "out/m_%s.fits" % n, 1, w_)
        if x:
            chk.same_value("R18.maps", "%s: %s" % (nm, n), I.alloc(st, x[0][0]), st, J.alloc(s, arr_of(ds, e)), s, **k)
    x = file_(chk, "R18.files", nm, fs, "out/m_covariance.fits", 1, w_)
    if x:
        for i in range(6):
            for j in range(6):
                c = I.getitem(I.alloc(st, x[0][0]), Tup([num(i), num(j)]), st, None)
                chk.same_value("R18.maps", "%s: covariance %d,%d" % (nm, i, j), c, st, J.alloc(s, arr_of(dims, sel2(t["cov"][i][j]))), s, **k)
    unit = {"model.i": string("Jy/beam"), "reffreq": string("Hz")}
    for n in list(want) + ["covariance"]:
        hd_ = fs.files.get("out/m_%s.fits" % n)
        if not hd_:
            continue
        ent = hd_[0][1]
        tag = "%s: %s: " % (nm, n)
        chk.same("R18.headers", tag + "unit", get(ent, "BUNIT") or string(""), unit.get(n, string("")), where=w_)
        fa = [i for i, (c, l) in enumerate(axes) if l == "f"][0] + 1
        for i, src in ((1, 1), (2, 2), (3, fa)):
            for key in ("CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"):
                y = get(ent, "%s%d" % (key, i))
                if i < 3 or n == "model.i":
                    chk.same("R18.headers", "%s%s%d" % (tag, key, i), y if y is not None else NONE, hd["%s%d" % (key, src)], where=w_)
                elif n != "covariance":
                    chk.holds("R18.headers", "%sno %s%d" % (tag, key, i), y is None, "the map has %s%d" % (key, i), w_)
        if n != "mask":
            bad = [k_ for k_ in ("DATAMIN", "DATAMAX") if get(ent, k_) is not None and k_ not in hd]
            chk.holds("R18.headers", tag + "no data range of other data", not bad, ", ".join(bad), w_)
    extra = {"out/m_coeff%d%s.fits" % (i, e) for i in range(abs(order) + 1, 7) for e in ("", "err")} & set(fs.files)
    chk.holds("R18.files", nm + ": files of an earlier run are replaced", not fs.fragile, "fails if it exists: %s" % ", ".join(fs.fragile), w_)
    chk.holds("R18.files", nm + ": no coefficients above the order", not extra, ", ".join(sorted(extra)), w_)
    rescale(chk, nm, fs, dims, order, kind, t, sel2, k)


RS = "RMtools_3D.rescale_I_model_3D."


def six(dims, order, n):
    """the six planes of a map of parameters, highest order first; those above the order of the model are zero"""
    T.set_length("pl", num(6))
    T.FINITE.add(n)
    p = lab("pl")
    a = arr_of(["pl"] + dims, ite(compare(">=", p, num(5 - abs(order))), el(n, [p] + [lab(d) for d in dims if d != 1], pos=True), ZERO))
    return Arr((ax("pl", num(6)),) + a.axes[1:], a.expr)


def written(chk, tag, fs, before, base, dims, order, mode, st, w_):
    """the maps of the rescaled models follow the conventions of the maps they were read from"""
    new = {f for f in fs.files if f not in before or fs.files[f] is not before[f]}
    n = abs(order)
    want = {base + "newcoeff%d%s.fits" % (i, e) for i in range(n + 1) for e in ("", "err")}
    chk.holds("R18.rescaled", tag + "files", new == want, "writes %s, expected %s" % (sorted(new), sorted(want)), w_)
    chk.holds("R18.rescaled", tag + "existing files are " + ("replaced" if mode == "given" else "kept"), set(fs.fragile) == (set() if mode == "given" else new), "would fail for %s" % sorted(fs.fragile), w_)
    old = before["out/m_reffreq.fits"][0][1]
    J = chk.interp()
    s = J.new_state()
    for f in sorted(new & want):
        i, name = int(f[len(base) + 8]), "newe" if f.endswith("err.fits") else "newc"
        arr, ent = fs.files[f][0]
        e = el(name, [num(5 - i)] + [lab(d) for d in dims if d != 1], pos=True)
        chk.same_value("R18.rescaled", tag + f[len(base):], Arr(arr.axes, arr.expr), s, arr_of(dims, e), s, where=w_)
        for x, (k, v) in sorted(old.items()):
            key = T.str_const(k)
            if key in ("BUNIT", "REFFREQ", "HISTORY", "COMMENT", "") or key.startswith("NAXIS") or v is ABSENT:
                continue
            got = ent.get(x)
            chk.holds("R18.rescaled", "%s%s: %s" % (tag, f[len(base):], key), got is not None and (not isinstance(v, E) or isinstance(got[1], E) and got[1] is v), "coordinates differ from those of the input maps", w_)
        chk.holds("R18.rescaled", tag + f[len(base):] + ": no unit of a map of frequencies", string("BUNIT").key not in ent, "the unit of the reference frequency map is kept", w_)


def rescale(chk, nm, fs, dims, order, kind, t, sel2, k):
    """what rmtools_rescaleIcube reads back"""
    w_ = chk.where(RS + "command_line")
    l0 = sym("lam0", pos=True)
    fs.files["fdf.fits"] = [(arr_of(dims, ONE), {string("LAMSQ0").key: (string("LAMSQ0"), l0)})]
    for mode in ("mean", "given", "fdf"):
        calls = Calls()
        cli = Cli(dict(covar_file=string("out/m_covariance.fits"), num_cores=sym("cores", pos=True)))
        base = "out/m_"
        if mode == "given":
            base = "r/n_"
            cli.given.update(new_reffreq=sym("fnew", pos=True), outname=string(base), overwrite=TRUE)
        if mode == "fdf":
            cli.given["lambda2_0"] = string("fdf.fits")
        h = fs.hooks()
        h.update(cli.hooks())
        h[RS + "rescale_I_model_3D"] = calls.hook(RS + "rescale_I_model_3D", lambda I, st, a: Tup([a["new_freq_map"], I.alloc(st, six(dims, order, "newc")), I.alloc(st, six(dims, order, "newe"))]))
        before = dict(fs.files)
        fs.fragile.clear()
        I = chk.interp(hooks=h)
        st = I.new_state()
        tag = "%s: rescale to %s: " % (nm, mode)
        r = files(chk, "R18.rescale", tag, lambda: I.run(RS + "command_line", [], {}, st), w_)
        chk.absorb(I)
        keys(chk, "R18.rescale", tag, I, w_)
        if r is None:
            continue
        written(chk, tag, fs, before, base, dims, order, mode, r[1], w_)
        fs.files.clear()
        fs.files.update(before)
        st = r[1]
        a = calls.one(RS + "rescale_I_model_3D")
        a, st = a
        J = chk.interp()
        s = J.new_state()
        k = dict(K, where=w_)
        kept = lambda n: J.alloc(s, fs.files["out/m_%s.fits" % n][0][0])
        ref = kept("reffreq")
        chk.same_value("R18.rescale", tag + "old reference frequency", a["old_reffreq_map"], st, ref, s, **k)
        chk.same_value("R18.rescale", tag + "kind of polynomial", a["fit_function"], st, string(kind), s, **k)
        for i in range(6):
            c = I.getitem(a["coeffs"], num(5 - i), st, None)
            chk.same_value("R18.rescale", "%scoefficient %d" % (tag, i), c, st, kept("coeff%d" % i) if i <= abs(order) else J.alloc(s, arr_of(dims, ZERO)), s, **k)
            c = I.getitem(a["covar_map"], Tup([num(i), num(5 - i)]), st, None)
            chk.same_value("R18.rescale", "%scovariance %d" % (tag, i), c, st, J.getitem(kept("covariance"), Tup([num(i), num(5 - i)]), s, None), s, **k)
        if mode == "mean":
            f, s = J.run("specs.stokesi.mean_map", [ref], {}, s)
            f = J.scalar(f, s)
        else:
            f = sym("fnew", pos=True) if mode == "given" else div(sym("c_light", pos=True), T.sqrt(l0))
        chk.same_value("R18.rescale", tag + "new reference frequency", a["new_freq_map"], st, J.alloc(s, arr_of(dims, f)), s, **k)
