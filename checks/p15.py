"""cubes on disk: names, axes and coordinates of what the 3D tools write, and what the next tool reads back"""
import itertools

from .common import *
from .fs import FS, Missing, cube_header, cube
from .tools import Calls, ref

S = "RMtools_3D.do_RMsynth_3D."
C = "RMtools_3D.do_RMclean_3D."
PK = "RMtools_3D.RMpeakfit_3D."
U = "RMutils.util_RM."
RA, DEC, FR, ST = ("RA---SIN", "x"), ("DEC--SIN", "y"), ("FREQ", "f"), ("STOKES", None)
LAYOUTS = {"RA, DEC, FREQ": [RA, DEC, FR], "RA, DEC, STOKES, FREQ": [RA, DEC, ST, FR], "RA, DEC, FREQ, STOKES": [RA, DEC, FR, ST], "FREQ, RA, DEC": [FR, RA, DEC],
           "RA, DEC, unnamed": [RA, DEC, ("VRAD", "f")], "RA, DEC, frequency in mixed case": [RA, DEC, ("Frequency", "f")], "axes without CTYPE": [(None, "x"), (None, "y"), (None, "f")],
           "RA, DEC, Freq, STOKES": [RA, DEC, ("Freq", "f"), ST], "RA, DEC, OBSFREQ, STOKES": [RA, DEC, ("OBSFREQ", "f"), ST], "ObsFreq, RA, DEC": [("ObsFreq", "f"), RA, DEC], "RA, DEC, stokes, frequency": [RA, DEC, ST, ("frequency", "f")],
           "one column": [("RA---SIN", None), DEC, FR], "one row": [RA, ("DEC--SIN", None), FR], "one pixel": [("RA---SIN", None), ("DEC--SIN", None), FR], "one column, STOKES, FREQ": [("RA---SIN", None), DEC, ST, FR]}
PHI, DPHI, PHI2 = sym("phi0"), sym("dphi", pos=True), sym("phi20")
PART = {"real": real, "im": imag, "tot": absv}
LAM0 = sym("lam0", pos=True)


def run(chk):
    for nm, axes in LAYOUTS.items():
        w_ = chk.where(S + "readFitsCube")
        chk.guarded("R15.read", nm, lambda: read(chk, nm, axes, w_), w_)
        for sep, only in itertools.product((True, False), (None, "FDF", "RMSF")):
            n2 = nm + ("" if sep else ", extensions") + (", only the " + only if only else "")
            w_ = chk.where(S + "writefits")
            fs = chk.guarded("R15.synth", n2, lambda: synth(chk, n2, axes, sep, only, w_), w_)
            if fs is not None and sep and not only:
                w_ = chk.where(C + "run_rmclean")
                for i, (a, b) in enumerate((("tot", "tot"), ("real", "im"), ("im", "real"))):
                    if i == 0 or nm == "RA, DEC, FREQ":
                        chk.guarded("R15.clean", nm, lambda: clean(chk, "%s, from FDF_%s and RMSF_%s" % (nm, a, b), axes, fs, a, b, w_), w_)
    return dict(floor=10, explanation="An abstract file system keeps what the tools write as symbolic arrays and headers. For each axis layout the value-numbering interpreter runs readFitsCube, then rmsynth3d's writefits, then rmclean3d's run_rmclean and writefits and rmtools_peakfitcube's read_files on the files that were written, and compares names, axis order, the world coordinate of every pixel (as a term in the pixel index), units and keywords with the documented ones, and every array that reaches the next tool with the array the previous one computed. Numerical kernels (RM-CLEAN) are replaced by recorders.")


def header(axes, extra=None):
    h = cube_header([(c or "?", l) for c, l in axes], extra)
    return {k: v for k, v in h.items() if not (k.startswith(("CTYPE", "CUNIT")) and axes[int(k[5:]) - 1][0] is None)}


def files(chk, rule, nm, f, w_):
    """run an analysis step that reads files; a missing one is a violation"""
    try:
        v, st = f()
        chk.holds(rule, nm + ": returns", v is not BOTTOM, "every path raises an error", w_)
        return None if v is BOTTOM else (v, st)
    except Missing as ex:
        chk.holds(rule, nm + ": files are found", False, str(ex), w_)
        return None


def read(chk, nm, axes, w_):
    fs = FS()
    I = chk.interp(hooks=fs.hooks())
    st = I.new_state()
    d = cube(I, st, "q", axes)
    hd = header(axes)
    fs.files["in/Q.fits"] = [(st.heap[d.id], {string(k).key: (string(k), v) for k, v in hd.items()})]
    r = files(chk, "R15.read", nm, lambda: I.run(S + "readFitsCube", [string("in/Q.fits"), FALSE], {}, st), w_)
    if r is None:
        return
    v, st = r
    chk.absorb(I)
    keys(chk, "R15.read", nm, I, w_)
    it = chk.elements(v, 2)
    dims = [l or 1 for l in ["f"] + [l for c, l in reversed(axes) if l != "f" and c != "STOKES"]]
    if len(axes) > 3:
        dims = [l for l in dims if l != 1]
    chk.same_value("R15.read", nm + ": data in the order frequency, y, x", it[1], st, arr_of(dims, el("q", [lab(l) for l in ("f", "y", "x") if l in dims])), st, where=w_)
    h = st.heap[it[0].id].ent
    for k, x in hd.items():
        chk.same("R15.read", "%s: header %s" % (nm, k), h.get(string(k).key, (0, NONE))[1], x, where=w_)


def keys(chk, rule, nm, I, w_):
    bad = [i for i in I.issues if i[0] in ("key", "undefined", "unbound", "attribute")]
    chk.holds(rule, nm + ": header keywords exist", not bad, "; ".join(i[1] for i in bad[:3]), bad[0][2] if bad else w_)


def pix(axes):
    return [l or 1 for c, l in reversed(axes) if l != "f" and c != "STOKES"]


def idx(dims):
    return [lab(l) for l in dims if l != 1]


def file_(chk, rule, nm, fs, name, n, w_):
    """HDUs of a written file"""
    if name not in fs.files:
        chk.holds(rule, "%s: %s is written" % (nm, name), False, "written: " + ", ".join(sorted(fs.files)), w_)
        return None
    h = fs.files[name]
    chk.holds(rule, "%s: %s has %d part%s" % (nm, name, n, "s" if n > 1 else ""), len(h) == n, "it has %d" % len(h), w_)
    return h if len(h) == n else None


def get(ent, k):
    v = ent.get(string(k).key)
    if v is None:
        return None
    v = v[1]
    return v.items[0] if isinstance(v, Tup) else v


def hdu(chk, rule, nm, hd, axes, fd, expr, depth, bunit, stokes, w_, st):
    """data and header of one cube: fd is the label of the Faraday depth axis, depth the coordinate as a term in that label"""
    arr, ent = hd
    order = [fd if l == "f" else (l or 1) for c, l in reversed(axes)]
    I = chk.interp()
    s2 = I.new_state()
    chk.same_value(rule, nm + ": data, axes as in the header", I.alloc(s2, arr), s2, arr_of(order, expr), s2, where=w_)
    for i, (c, l) in enumerate(axes):
        n = str(i + 1)
        if l == "f":
            a, b, d = (get(ent, k + n) for k in ("CRVAL", "CRPIX", "CDELT"))
            if None in (a, b, d):
                chk.holds(rule, nm + ": Faraday depth axis", False, "no coordinates for axis %s" % n, w_)
                continue
            chk.same(rule, nm + ": Faraday depth of pixel k", add(a, mul(d, sub(add(lab(fd), ONE), b))), depth, where=w_)
            chk.same(rule, nm + ": CTYPE of the depth axis", get(ent, "CTYPE" + n) or NONE, string("FDEP"), where=w_)
            chk.same(rule, nm + ": CUNIT of the depth axis", get(ent, "CUNIT" + n) or NONE, string("rad/m^2"), where=w_)
            continue
        for k in ("CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"):
            x = header(axes).get(k + n)
            if c == "STOKES" and k in ("CRVAL", "CRPIX"):
                x = {"Q": num(2), "U": num(3), None: ZERO}[stokes] if k == "CRVAL" else num(1)
            y = get(ent, k + n)
            if x is None:
                chk.holds(rule, "%s: no %s" % (nm, k + n), y is None, "it is %s" % (show(y) if y is not None else ""), w_)
            else:
                chk.same(rule, "%s: %s" % (nm, k + n), y if y is not None else NONE, x, where=w_)
    y = get(ent, "STOKES")
    chk.holds(rule, nm + ": STOKES keyword", (y is None) if stokes is None else (y is not None and T.str_const(y) == stokes), "it is %s, not %s" % (show(y) if y is not None else None, stokes), w_)
    for k, x in {"BUNIT": bunit, "LAMSQ0": LAM0, "OBJECT": sym("h:OBJECT"), "BMAJ": sym("h:BMAJ"), "DATAMAX": None, "DATAMIN": None}.items():
        y = get(ent, k)
        if x is None:
            chk.holds(rule, "%s: no stale %s" % (nm, k), y is None, "it is %s" % (show(y) if y is not None else ""), w_)
        else:
            chk.same(rule, "%s: %s" % (nm, k), y if y is not None else NONE, x, where=w_)


def arrays(axes):
    p = pix(axes)
    return p, el("FDF", [lab("k")] + idx(p), real=False), el("RMSF", [lab("k2")] + idx(p), real=False), el("fwhm", idx(p))


def synth(chk, nm, axes, sep, only, w_):
    fs = FS()
    I = chk.interp(hooks=fs.hooks())
    st = I.new_state()
    p, f, r, w = arrays(axes)
    mk = lambda ls, e: I.alloc(st, arr_of(ls, e))
    d1, d2 = add(PHI, mul(DPHI, lab("k"))), add(PHI2, mul(DPHI, lab("k2")))
    parts = dict(FDF=[mk(["k"] + p, f), mk(["k"], d1)], RMSF=[mk(["k2"] + p, r), mk(["k2"], d2), mk(p, w), mk(p, el("stat", idx(p)))])
    data = I.alloc(st, Lst((parts["FDF"] if only != "RMSF" else []) + (parts["RMSF"] if only != "FDF" else []) + [LAM0] + ([mk(["f"], el("x2", [lab("f")]))] if only != "RMSF" else [])))
    h = fs.header(I, st, header(axes, {"DATAMAX": sym("h:DATAMAX"), "DATAMIN": sym("h:DATAMIN")}))
    _, st = I.run(S + "writefits", [data], dict(headtemplate=h, prefixOut=string("a_total_"), outDir=string("my_images/sub_total"), write_seperate_FDF=TRUE if sep else FALSE, do_peakmaps=TRUE if sep else FALSE, nBits=num(32), fitRMSF=T.boolatom(fn("b:fitRMSF", raw=True)), **({"not_rmsf" if only == "FDF" else "not_rmsynth": TRUE} if only else {})), st)
    chk.absorb(I)
    keys(chk, "R15.synth", nm, I, w_)
    out = "my_images/sub_total/a_total_"
    want = {"FDF": (("_real_dirty", "_im_dirty", "_tot_dirty"), "_dirty", f, "k", d1, string("Jy/beam/RMSF")), "RMSF": (("_real", "_im", "_tot"), "", r, "k2", d2, string(""))}
    names = set()
    fwhm = None
    for what, (parts, single, e, l, d, bu) in want.items():
        hs = []
        if only not in (None, what):
            continue
        if sep:
            for q in parts:
                names.add(out + what + q + ".fits")
                x = file_(chk, "R15.synth", nm, fs, out + what + q + ".fits", 1, w_)
                hs += x or [None]
        else:
            names.add(out + what + single + ".fits")
            hs = file_(chk, "R15.synth", nm, fs, out + what + single + ".fits", 3 if what == "FDF" else 4, w_) or []
            if what == "RMSF" and hs:
                fwhm = hs[3]
        for q, x in zip(("real", "im", "tot"), hs):
            if x is not None:
                hdu(chk, "R15.synth", "%s, %s %s" % (nm, what, q), x, axes, l, PART[q](e), d, bu, {"real": "Q", "im": "U", "tot": None}[q], w_, st)
    if sep and only != "FDF":
        names.add(out + "RMSF_FWHM.fits")
        fwhm = (file_(chk, "R15.synth", nm, fs, out + "RMSF_FWHM.fits", 1, w_) or [None])[0]
    if sep and only != "RMSF":
        dims = [1 if l == "f" else (l or 1) for c, l in reversed(axes)]
        for n, bu in (("maxPI", string("Jy/beam")), ("peakRM", string("rad/m^2"))):
            names.add(out + "FDF_%s.fits" % n)
            x = (file_(chk, "R15.synth", nm, fs, out + "FDF_%s.fits" % n, 1, w_) or [None])[0]
            if x is not None:
                e = ref(chk, "peaks", lambda I, st: [I.alloc(st, arr_of(["k"] + p, f)), I.alloc(st, arr_of(["k"], d1))])
                plane(chk, "R15.synth", "%s, %s" % (nm, n), x, axes, p, None, bu, w_, dims=dims, want=(e[0].items[n == "peakRM"], e[1]))
                for i, (c, l) in enumerate(axes):
                    if l == "f" or c == "STOKES":
                        k = "CTYPE%d" % (i + 1)
                        chk.same("R15.synth", "%s, %s: %s, an axis of one pixel" % (nm, n, k), get(x[1], k) or NONE, string("DEGENERATE"), where=w_)
    chk.holds("R15.synth", nm + ": files of an earlier run are replaced", not fs.fragile, "fails if it exists: %s" % ", ".join(fs.fragile), w_)
    chk.holds("R15.synth", nm + ": nothing else is written", not set(fs.files) - names, ", ".join(sorted(set(fs.files) - names)), w_)
    if fwhm is not None:
        plane(chk, "R15.synth", nm + ", width of the RMSF", fwhm, axes, p, w, string("rad/m^2"), w_)
    return fs if sep else None


def plane(chk, rule, nm, hd, axes, p, e, bunit, w_, dims=None, want=None, header=None):
    """a 2D map with the coordinates of the sky axes"""
    arr, ent = hd
    hd_ = header or globals()["header"](axes)
    I = chk.interp()
    s2 = I.new_state()
    if want is not None:  # map in y, x; the file has a degenerate depth axis
        o = chk.deref(want[0], want[1])
        m = {a.label: lab(l) for a, l in zip(o.axes, p) if l != 1 and a.label}
        e = T.subst(o.expr, m)
    chk.same_value(rule, nm + ": data", I.alloc(s2, arr), s2, arr_of(dims or p, e), s2, where=w_)
    chk.same(rule, nm + ": BUNIT", get(ent, "BUNIT") or NONE, bunit, where=w_)
    if header is None:
        for k in ("DATAMAX", "DATAMIN"):
            chk.holds(rule, "%s: no stale %s" % (nm, k), get(ent, k) is None, "it is the one of the input cube", w_)
    if axes[0][1] == "f":
        return
    for i in (0, 1):
        for k in ("CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"):
            x = hd_.get(k + str(i + 1))
            y = get(ent, k + str(i + 1))
            if x is not None:
                chk.same(rule, "%s: %s%d" % (nm, k, i + 1), y if y is not None else NONE, x, where=w_)
    if not dims:
        for n in ("3", "4"):
            bad = [k for k in ("CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT") if get(ent, k + n) is not None]
            chk.holds(rule, "%s: no coordinates of an axis %s" % (nm, n), not bad, ", ".join(b + n for b in bad), w_)


def clean(chk, nm, axes, fs0, a, b, w_):
    p, f, r, w = arrays(axes)
    out = "my_images/sub_total/a_total_"
    fs = FS()
    fs.files = dict(fs0.files)
    lst = ["k"] + p
    c = Calls()
    Q = U + "do_rmclean_hogbom"
    sq = [l for l in p if l != 1]
    lst = ["k"] + sq

    def done(I, st, a):
        mk = lambda ls, n, **k: I.alloc(st, arr_of(ls, el(n, idx(ls), **k)))
        return Tup([mk(lst, "clean", real=False), mk(lst, "cc", real=False), mk(sq, "iter"), mk(lst, "resid", real=False)])
    hooks = fs.hooks()
    hooks[Q] = c.hook(Q, done)
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    P = {n: sym(n, pos=True) for n in ("cutoff", "gain", "window", "maxIter")}
    v = files(chk, "R15.clean", nm, lambda: I.run(C + "run_rmclean", [string("%sFDF_%s_dirty.fits" % (out, a)), string("%sRMSF_%s.fits" % (out, b)), P["cutoff"]], dict(verbose=FALSE, **{k: x for k, x in P.items() if k != "cutoff"}), st), w_)
    if v is None:
        return
    v, st = v
    chk.absorb(I)
    keys(chk, "R15.clean", nm, I, w_)
    g, cs = c.one(Q)
    d1, d2 = add(PHI, mul(DPHI, lab("k"))), add(PHI2, mul(DPHI, lab("k2")))
    for par, ls, e in (("dirtyFDF", lst, f), ("phiArr_radm2", ["k"], d1), ("RMSFArr", ["k2"] + sq, r), ("phi2Arr_radm2", ["k2"], d2), ("fwhmRMSFArr", sq, w)):
        chk.same_value("R15.clean", "%s: %s is what rmsynth3d computed" % (nm, par), g[par], cs, arr_of(ls, e), cs, where=w_)
    for k in P:
        chk.same("R15.clean", "%s: %s reaches the algorithm" % (nm, k), I.term(g[k], cs), P[k], where=w_)
    if a != "tot":
        return
    it = chk.elements(v, 5)
    for sep in (True, False):
        fs.files = dict(fs0.files)
        s2 = st.copy()
        _, s2 = I.run(C + "writefits", list(it), dict(prefixOut=string("a_total_"), outDir=string("my_images/sub_total"), write_separate_FDF=TRUE if sep else FALSE, verbose=FALSE), s2)
        n2 = nm + ("" if sep else ", extensions")
        keys(chk, "R15.cleaned", n2, I, w_)
        names = set()
        for what, sym_ in (("FDF_clean", "clean"), ("FDF_CC", "cc")):
            e = el(sym_, [lab("k")] + idx(sq), real=False)
            ns = [what + "_" + q for q in PART] if sep else [what]
            hs = []
            for n in ns:
                names.add(out + n + ".fits")
                hs += file_(chk, "R15.cleaned", n2, fs, out + n + ".fits", 1 if sep else 3, w_) or []
            for q, x in zip(("real", "im", "tot"), hs):
                hdu(chk, "R15.cleaned", "%s, %s %s" % (n2, what, q), x, axes, "k", PART[q](e), d1, string("Jy/beam/RMSF"), {"real": "Q", "im": "U", "tot": None}[q], w_, st)
        names.add(out + "CLEAN_nIter.fits")
        x = file_(chk, "R15.cleaned", n2, fs, out + "CLEAN_nIter.fits", 1, w_)
        if x:
            plane(chk, "R15.cleaned", n2 + ", iterations", x[0], axes, p, el("iter", idx(sq)), string("Iterations"), w_, dims=[1 if l == "f" else (l or 1) for c, l in reversed(axes)])
        new = set(fs.files) - set(fs0.files)
        chk.holds("R15.cleaned", n2 + ": files of an earlier run are replaced", not fs.fragile, "fails if it exists: %s" % ", ".join(fs.fragile), w_)
        chk.holds("R15.cleaned", n2 + ": nothing else is written", new <= names, ", ".join(sorted(new - names)), w_)
        if sep:
            wp = chk.where(PK + "read_files")
            chk.guarded("R15.peak", nm, lambda: peak(chk, nm, fs, out, f, el("clean", [lab("k")] + idx(sq), real=False), lst, sq, w, d1, wp), wp)


def peak(chk, nm, fs, out, f, cl, lst, sq, w, d1, w_):
    fs.text["freq.txt"] = ("array", Arr((ax("f"),), el("freq", [lab("f")], pos=True)))
    for q in PART:
        for name, e in (("FDF_%s_dirty" % q, f), ("FDF_clean_" + q, cl)):
            I = chk.interp(hooks=fs.hooks())
            st = I.new_state()
            n2 = "%s, from %s" % (nm.split(", from")[0], name)
            v = files(chk, "R15.peak", n2, lambda: I.run(PK + "read_files", [string(out + name + ".fits"), string("freq.txt")], {}, st), w_)
            if v is None:
                continue
            v, s2 = v
            chk.absorb(I)
            keys(chk, "R15.peak", n2, I, w_)
            it = chk.elements(v, 6)
            for what, x, ls, e2 in (("cube", it[0], lst, e), ("Faraday depths", it[1], ["k"], d1), ("RMSF width", it[2], sq, w), ("wavelengths squared", it[3], ["f"], power(div(C_LIGHT, el("freq", [lab("f")], pos=True)), num(2)))):
                chk.same_value("R15.peak", "%s: %s" % (n2, what), x, s2, arr_of(ls, e2), s2, where=w_)
            chk.same("R15.peak", n2 + ": reference wavelength squared", I.term(it[4], s2), LAM0, where=w_)
