"""simulated test data: the files hold the sources of the catalogue, with noise of the level and shape asked for"""
from .common import *
from .cli import Cli
from .fs import FS
from .tools import Calls, bound
from sa.rint import u01

A1 = "RMtools_1D.mk_test_ascii_data."
A3 = "RMtools_3D.mk_test_cube_data."
UM = "RMutils.util_misc."
ROWS = ((1, 8), (5, 4), (2, 6), (1, 4))  # type of model, number of columns after the spectral index


class Noise:
    """every call of the generator is a fresh array of standard normal deviates"""

    def __init__(self):
        self.n = 0

    def hooks(self):
        def draw(shape):
            def h(I, args, kw, st, node):
                loc, scale, size = shape(args, kw)
                if size is NONE:
                    size = I.getattr(I.ew(lambda x, y: T.add(x, y), [loc, scale], st), "shape", st, node) if any(isinstance(x, Ref) for x in (loc, scale)) else Tup([])
                z = I.call(Ext("numpy.zeros"), [size], {}, st, node)
                a = st.heap[z.id]
                k, self.n = self.n, self.n + 1
                inner = [lab(l) for _, ls in I.loopstack for l in ls]
                e = mul(lab("z%d" % k), el("dev%d" % k, inner + [lab(x.label) for x in a.axes]))
                z = I.alloc(st, Arr(a.axes, e))
                return I.ew(lambda x, l, s: T.add(l, mul(s, x)), [z, loc, scale], st)
            return h

        def normal(args, kw):
            a = dict(zip(("loc", "scale", "size"), args))
            a.update(kw)
            return a.get("loc", ZERO), a.get("scale", ONE), a.get("size", NONE)

        def std(args, kw):
            return ZERO, ONE, args[0] if args else kw.get("size", NONE)
        return {"numpy.random.normal": draw(normal), "numpy.random.standard_normal": draw(std), "numpy.random.randn": draw(lambda a, k: (ZERO, ONE, Tup(a)))}

    def split(self, e):
        """(value without noise, [(draw, its contribution per deviate)])"""
        off = {"z%d" % k: ZERO for k in range(self.n)}
        base = T.subst(e, off)
        out = []
        for k in range(self.n):
            if "z%d" % k in e.labels:
                on = T.subst(e, dict(off, **{"z%d" % k: ONE}))
                out.append((k, sub(on, base)))
        return base, out


def rows(I, st):
    return [[sym("e%d_%d" % (r, i)) if i != 5 else sym("e%d_5" % r, pos=True) for i in range(7 + n)] for r, (t, n) in enumerate(ROWS)]


def catalogue(I, args, kw, st, node):
    a = bound(I, UM + "csv_read_to_list", args, kw)
    n, fl = I.term(a["fileName"], st), a.get("doFloat", FALSE)
    if not (T.is_str_const(n) and T.str_const(n) == "cat.csv" and fl is TRUE):
        I.do_raise(st, "FileNotFoundError", node)
        return BOTTOM
    return I.alloc(st, Lst([I.alloc(st, Lst([num(t)] + x)) for (t, _), x in zip(ROWS, rows(I, st))]))


TABLE = "noise.txt"
CASES = {
    "defaults": {},
    "all given": dict(freqRng_MHz=[sym("f1", pos=True), sym("f2", pos=True)], freq0_MHz=sym("fref", pos=True), rmsNoise=sym("rms", pos=True), noiseTmpFile=string(TABLE), flagFreqStr=string("8e8,9e8,1.1e9,1.2e9,1.3e9")),
    "one flagged range": dict(flagFreqStr=string("8e8,9e8")),
    "edges of the ranges": dict(freqRng_MHz=[num(800), num(1000)], nChans=num(3), flagFreqStr=string("8e8,9e8")),
    "upper edge": dict(freqRng_MHz=[num(800), num(1000)], nChans=num(3), flagFreqStr=string("8.5e8,9e8")),
    "fluxes at another frequency": dict(freq0_MHz=sym("fref", pos=True)),
}


def table(I, st):
    T.set_length("tab", num(6))
    return I.input_array(st, "noisecurve", ["tab", "two"], pos=True)


def ascii(chk, sc, given, w):
    fs, cli, rng = FS(), Cli(dict(given, inCatFile=[string("cat.csv")], dataPath=string("out/"))), Noise()
    T.set_length("two", num(2))
    I = chk.interp(hooks={**fs.hooks(), **cli.hooks(), **rng.hooks(), UM + "csv_read_to_list": catalogue})
    st = I.new_state()
    fs.text[TABLE] = ("array", st.heap[table(I, st).id])
    fs.files["cat.csv"] = []
    v, st = I.run(A1 + "main", [], {}, st)
    chk.absorb(I)
    names = ["out/Source%d.dat" % (k + 1) for k, (t, _) in enumerate(ROWS) if t in (1, 2)]
    chk.holds("R31.files", sc, sorted(x for x, _, _ in fs.writes) == sorted(names) and all(g is TRUE for _, g, _ in fs.writes), "files written: %s" % sorted({x for x, _, _ in fs.writes}), w)
    used = []
    for r, (kind, _) in enumerate(ROWS):
        n = "out/Source%d.dat" % (r + 1)
        if kind not in (1, 2) or n not in fs.text:
            continue
        nm = "%s: source %d" % (sc, r + 1)
        tab = fs.text[n][1]
        if not chk.holds("R31.columns", nm, len(tab.axes) == 2 and tab.axes[1].L is num(7), "shape %s" % (tab.axes,), w) == "HOLDS":
            continue
        I2 = chk.interp()
        st2 = I2.new_state()
        f1, f2 = [mul(num(10 ** 6), x) for x in given["freqRng_MHz"]] if "freqRng_MHz" in given else (num(7 * 10 ** 8), num(18 * 10 ** 8))
        bad = Tup([Tup([num(a), num(b)]) for a, b in BAD.get(sc, ())])
        f, st2 = I2.run("specs.testdata.channels", [f1, f2, given.get("nChans", num(111)), bad], {}, st2)
        rms = given.get("rmsNoise", div(ONE, num(50)))
        ref = mul(num(10 ** 6), given["freq0_MHz"]) if "freq0_MHz" in given else f1
        shape, st2 = I2.run("specs.testdata.relative_noise", [f, table(I2, st2) if "noiseTmpFile" in given else NONE], {}, st2)
        iqu, st2 = I2.run("specs.testdata.source", [f, sym("c_light", pos=True), num(kind), I2.alloc(st2, Lst(rows(I2, st2)[r])), ref], {}, st2)
        level = I2.ew(lambda x: mul(rms, x), [shape], st2)
        want = [f] + chk.elements(iqu, 3) + [level] * 3
        for k, c in enumerate(("frequency", "I", "Q", "U", "dI", "dQ", "dU")):
            e = T.subst(tab.expr, {tab.axes[1].label: num(k)})
            base, noise = rng.split(e)
            chk.same_value("R31.spectrum" if k < 4 else "R31.error", "%s: %s" % (nm, c), Arr(tab.axes[:1], base), st, want[k], st2, where=w, vals=vals)
            if k == 0:
                chk.holds("R31.noise", "%s: %s" % (nm, c), not noise, "noise on the frequencies", w)
                continue
            if chk.holds("R31.noise", "%s: %s: one draw of its own" % (nm, c), len(noise) == 1 and noise[0][0] not in used, "random draws in this column: %s, already used: %s" % ([x for x, _ in noise], used), w) != "HOLDS":
                continue
            d, part = noise[0]
            used.append(d)
            dev = Arr(tab.axes[:1], el("dev%d" % d, [lab(tab.axes[0].label)]))
            size = I2.ew(lambda x, y: mul(x, y), [I2.alloc(st2, dev), level], st2)
            if k >= 4:
                size = I2.ew(lambda x: div(x, num(20)), [size], st2)
            chk.same_value("R31.noise", "%s: %s: level" % (nm, c), Arr(tab.axes[:1], part), st, size, st2, where=w, vals=vals)


PARAMS = ("start", "end", "rms", "bmin", "bmaj", "bpa", "pix", "xc", "yc")


class Sky:
    """astropy WCS of a two-dimensional header: keeps the header, gives symbolic 0-based pixels"""

    def __init__(self):
        self.headers = []

    def hooks(self):
        def wcs(I, args, kw, st, node):
            h = args[0] if args else kw.get("header", NONE)
            o = st.heap[h.id] if isinstance(h, Ref) else None
            if not isinstance(o, Dct):
                raise Abort("WCS is not given a header")
            self.headers.append({v[0].key: v for v in o.ent.values() if v[1] is not ABSENT})
            return I.alloc(st, Ob("ext:wcs", {"number": num(len(self.headers) - 1)}))

        def world2pix(I, args, kw, st, node):
            o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
            if not isinstance(o, Ob) or o.cls != "ext:wcs" or len(args) not in (2, 3):
                return NotImplemented
            org = I.term(args[2] if len(args) > 2 else kw["origin"], st)
            known = lambda v: I.iterate(v, st)[1] if I.iterate(v, st)[0] == "known" else []
            out = []
            for p in known(args[1]):
                pair = [I.term(x, st) for x in known(p)]
                out.append(Tup([T.add(el("pix" + n, pair), org) for n in "xy"]))
            return I.alloc(st, Lst(out))
        return {"astropy.wcs.WCS": wcs, "astropy.wcs.wcs.WCS": wcs, ".wcs_world2pix": world2pix}


def cards(chk, nm, ent, P, system, w):
    """the header describes the axes of the data"""
    gal = system == "GAL"
    want = {"CTYPE1": "GLON-CAR" if gal else "RA-SIN", "CTYPE2": "GLAT-CAR" if gal else "DEC-SIN", "CTYPE3": "FREQ", "CTYPE4": "STOKES",
            "CRVAL1": P["xc"], "CRVAL2": P["yc"], "CRPIX1": div(add(P["nx"], ONE), num(2)), "CRPIX2": div(add(P["ny"], ONE), num(2)), "CDELT1": P["pix"], "CDELT2": P["pix"],
            "NAXIS": num(2)}
    if "stokes" in P:
        want.update({"CRVAL3": P["start"], "CRPIX3": ONE, "CDELT3": div(sub(P["end"], P["start"]), sub(P["n"], ONE)), "CRVAL4": P["stokes"], "CRPIX4": ONE, "CDELT4": ONE,
                     "BMIN": P["bmin"], "BMAJ": P["bmaj"], "BPA": P["bpa"], "NAXIS": num(4), "NAXIS1": P["nx"], "NAXIS2": P["ny"], "NAXIS3": P["n"], "NAXIS4": ONE})
    else:
        want.pop("CTYPE3"), want.pop("CTYPE4")
        for k in ("CTYPE3", "CTYPE4", "NAXIS3", "NAXIS4", "CRPIX3", "CRPIX4", "CDELT3", "CDELT4"):
            chk.holds("R31.header", "%s: %s" % (nm, k), string(k).key not in ent, "a card of another axis is left", w)
    for k, v in want.items():
        got = ent.get(string(k).key, (None, NONE))[1]
        if isinstance(v, str):
            t = T.str_const(got) if isinstance(got, E) and T.is_str_const(got) else None
            chk.holds("R31.header", "%s: %s" % (nm, k), t is not None and t.strip() == v, "card is %s" % (got,), w)
        else:
            chk.same("R31.header", "%s: %s" % (nm, k), got, v, where=w)


def gauss(seen):
    """an elliptical Gaussian of unit height as a symbol (its shape is decided on its own)"""
    def make(I, st, amp, par, ny, nx, flat):
        z = I.call(Ext("numpy.zeros"), [Tup([ny, nx])], {}, st, None)
        a = st.heap[z.id]
        e = mul(amp, el("gauss", list(par) + [lab(x.label) for x in a.axes]))
        z = I.alloc(st, Arr(a.axes, e))
        return I.call(Ext("numpy.ravel"), [z], {}, st, None) if flat else z

    def tool(I, args, kw, st, node):
        a = bound(I, UM + "twodgaussian", args, kw)
        par, shape = [[I.term(x, st) for x in I.iterate(a[k], st)[1]] for k in ("params", "shape")]
        if len(par) != 6 or len(shape) != 2:
            return NotImplemented
        seen.append(node)
        return make(I, st, par[0], par[1:], shape[0], shape[1], False)

    def ref(I, args, kw, st, node):
        if not seen or kw:
            return NotImplemented
        a = [I.term(x, st) for x in args]
        return make(I, st, a[0], a[1:6], a[6], a[7], False)
    return {UM + "twodgaussian": tool, "specs.testdata.plane": ref}


def ellipse(chk, w):
    out = value(chk, "R31.gaussian", "twodgaussian", UM + "twodgaussian", lambda I, st: ([I.alloc(st, Lst([sym(n) for n in ("amp", "x0", "y0")] + [sym("s1", pos=True), sym("s2", pos=True), sym("pa")])), Tup([length("y"), length("x")])], {}))
    if out is None:
        return
    v, st, I = out
    I2 = chk.interp()
    st2 = I2.new_state()
    ref, st2 = I2.run("specs.testdata.plane", [sym(n) for n in ("amp", "x0", "y0")] + [sym("s1", pos=True), sym("s2", pos=True), sym("pa"), length("y"), length("x")], {}, st2)
    chk.same_value("R31.gaussian", "twodgaussian", v, st, ref, st2, where=w, vals=vals)


def build(chk, sc, given, w):
    """create_IQU_cube_data for symbolic parameters"""
    fs, rng, sky = FS(), Noise(), Sky()
    T.set_length("two", num(2))
    blob = gauss([])
    I = chk.interp(hooks={**blob, **fs.hooks(), **rng.hooks(), **sky.hooks(), UM + "csv_read_to_list": catalogue})
    st = I.new_state()
    fs.files["cat.csv"] = []
    P = {n: sym(n, **({} if n in ("bpa", "xc", "yc") else dict(pos=True))) for n in PARAMS}
    n, ny, nx = length("f"), length("y"), length("x")
    tab = I.call(Ext("numpy.transpose"), [table(I, st)], {}, st, None) if given.get("table") else NONE
    kw = {"noiseTmpArr": tab, "flagRanges_Hz": I.alloc(st, Lst([Tup([num(a), num(b)]) for a, b in given.get("bad", ())]))}
    if "system" in given:
        kw["coordSys"] = string(given["system"])
    v, st = I.run(A3 + "create_IQU_cube_data", [string("out"), string("cat.csv"), P["start"], P["end"], n, P["rms"], P["bmin"], P["bmaj"], P["bpa"], P["pix"], P["xc"], P["yc"], nx, ny], kw, st)
    chk.absorb(I)
    names = ["out/Stokes%s.fits" % s for s in "IQU"] + ["out/freqs_Hz.dat"]
    chk.holds("R31.files", sc, sorted(x for x, _, _ in fs.writes) == sorted(names) and all(g is TRUE for _, g, _ in fs.writes) and not fs.fragile, "files written: %s" % sorted({x for x, _, _ in fs.writes}), w)
    I2 = chk.interp(hooks=blob)
    st2 = I2.new_state()
    f0, st2 = I2.run("specs.testdata.channels", [P["start"], P["end"], n, Tup([])], {}, st2)
    chk.same_value("R31.frequencies", sc, fs.text["out/freqs_Hz.dat"][1], st, f0, st2, where=w, vals=vals)
    f, st2 = I2.run("specs.testdata.channels", [P["start"], P["end"], n, Tup([Tup([num(a), num(b)]) for a, b in given.get("bad", ())])], {}, st2)
    shape, st2 = I2.run("specs.testdata.relative_noise", [f, table(I2, st2) if given.get("table") else NONE], {}, st2)
    ref, st2 = I2.run("specs.testdata.reference_frequency", [], {}, st2)
    rad = div(mul(P["bpa"], T.PI), num(180))
    size = []
    for k in ("bmin", "bmaj"):
        x, st2 = I2.run("specs.testdata.sigma", [P[k], P["pix"]], {}, st2)
        size.append(x)
    spec, place = [[], [], []], []
    for r, (kind, _) in enumerate(ROWS):
        if kind in (1, 2):
            row = rows(I2, st2)[r]
            iqu, st2 = I2.run("specs.testdata.source", [f, sym("c_light", pos=True), num(kind), I2.alloc(st2, Lst(row)), ref], {}, st2)
            for s, x in zip(spec, chk.elements(iqu, 3)):
                s.append(x)
            place.append(Tup([el("pix" + c, [row[0], row[1]]) for c in "xy"]))
    used = []
    for k, s in enumerate("IQU"):
        nm = "%s: Stokes %s" % (sc, s)
        if len(fs.files.get("out/Stokes%s.fits" % s, ())) != 1:
            chk.holds("R31.files", nm, False, "not one HDU", w)
            continue
        arr, ent = fs.files["out/Stokes%s.fits" % s][0]
        if chk.holds("R31.cube", nm + ": axes", len(arr.axes) == 4 and not arr.axes[0].label and [a.L for a in arr.axes[1:]] == [n, ny, nx], "axes %s" % (arr.axes,), w) != "HOLDS":
            continue
        want, st2 = I2.run("specs.testdata.cube", [Tup(spec[k]), Tup(place), size[0], size[1], rad, ny, nx], {}, st2)
        base, noise = rng.split(arr.expr)
        chk.same_value("R31.cube", nm, Arr(arr.axes[1:], base), st, want, st2, where=w, vals=vals)
        if chk.holds("R31.noise", nm + ": one draw of its own", len(noise) == 1 and noise[0][0] not in used, "random draws: %s, already used: %s" % ([x for x, _ in noise], used), w) != "HOLDS":
            continue
        d, part = noise[0]
        used.append(d)
        dev = Arr(arr.axes[1:], el("dev%d" % d, [lab(a.label) for a in arr.axes[1:]]))
        lev, st2 = I2.run("specs.testdata.noise_planes", [P["rms"], shape], {}, st2)
        size_ = I2.ew(lambda x, y: mul(x, y), [I2.alloc(st2, dev), lev], st2)
        chk.same_value("R31.noise", nm + ": level", Arr(arr.axes[1:], part), st, size_, st2, where=w, vals=vals)
        cards(chk, nm, ent, dict(P, n=n, ny=ny, nx=nx, stokes=num(k + 1)), given.get("system", "EQU"), w)
    for h in sky.headers:
        cards(chk, sc + ": header given to WCS", h, dict(P, n=n, ny=ny, nx=nx), given.get("system", "EQU"), w)


CUBES = {
    "defaults": {},
    "noise table, flags": dict(table=True, system="EQU", bad=((8 * 10 ** 8, 9 * 10 ** 8), (11 * 10 ** 8, 12 * 10 ** 8))),
    "Galactic": dict(system="GAL", bad=((8 * 10 ** 8, 9 * 10 ** 8),)),
}
BAD = {"all given": ((8 * 10 ** 8, 9 * 10 ** 8), (11 * 10 ** 8, 12 * 10 ** 8)), "edges of the ranges": ((8 * 10 ** 8, 9 * 10 ** 8),), "upper edge": ((85 * 10 ** 7, 9 * 10 ** 8),), "one flagged range": ((8 * 10 ** 8, 9 * 10 ** 8),)}


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "td", *a)
    if name in ("f1", "f2"):
        return 600 + 600 * u("f") if name == "f1" else 1250 + 900 * u("g")
    if name in ("start", "end"):
        return (6e8 if name == "start" else 1.3e9) + 5e8 * u(name)
    if name[0] == "e" and name[1:2].isdigit():  # depths that turn the angles by about a radian (the speed of light is of order one here)
        r, i = [int(x) for x in name[1:].split("_")]
        k = (i - 7) % (4 if ROWS[r][0] == 1 else 3)
        if i >= 7 and k >= 2:
            return (u(name) - (0.5 if k == 2 else 0)) * 1e18
    if name == "nan":
        return 7.7137e8
    if name == "fref":
        return 500 + 1500 * u("r")
    if name == "noisecurve":
        return (8e8 + 1.5e8 * (idx[0] + u("x", idx[0]))) if idx[1] == 0 else 0.2 + u("y", idx)
    return None


LINES = ["# title\n", "\n", " 1, 90.5,  -2.0e-1\t, 3 # remark\r\n", "   \n", "2,4\n", "  # indented remark\n", "#1,2\n", "7"]


def reader(chk, w):
    """every line of the catalogue that is not a remark is a list of its numbers"""
    from fractions import Fraction as Q
    for nm, kw, want in (("numbers", dict(doFloat=TRUE), [[num(1), num(Q(181, 2)), num(Q(-1, 5)), num(3)], [num(2), num(4)], [num(7)]]),
                         ("text", {}, [["1", "90.5", "-2.0e-1", "3"], ["2", "4"], ["7"]])):
        fs = FS()
        I = chk.interp(hooks=fs.hooks())
        fs.source["cat.csv"] = LINES
        st = I.new_state()
        v, st = I.run(UM + "csv_read_to_list", [string("cat.csv")], kw, st)
        chk.absorb(I)
        kind, got = I.iterate(v, st)[:2]
        if not chk.holds("R31.catalogue", nm + ": lines", kind == "known" and len(got) == len(want), "lines read: %s" % (len(got) if kind == "known" else kind), w) == "HOLDS":
            continue
        for k, (g, x) in enumerate(zip(got, want)):
            row = [I.term(y, st) for y in I.iterate(g, st)[1]]
            if isinstance(x[0], str):
                row = [T.str_const(y).strip() if T.is_str_const(y) else y for y in row]
            chk.holds("R31.catalogue", "%s: line %d" % (nm, k), row == x, "read as %s" % (row,), w)


def split(chk, w):
    for pre, rep, n in ((7, 4, 2), (7, 3, 2), (7, 4, 1), (2, 2, 3)):
        nm = "%d + %d columns of %d" % (pre, rep, n)
        item = lambda k: sym("c%d" % k)
        out = value(chk, "R31.catalogue", nm, UM + "split_repeat_lst", lambda I, st: ([I.alloc(st, Lst([item(k) for k in range(pre + rep * n)])), num(pre), num(rep)], {}))
        if out is None:
            continue
        v, st, I = out
        head, par = I.iterate(v, st)[1]
        chk.holds("R31.catalogue", nm + ": before", [I.term(x, st) for x in I.iterate(head, st)[1]] == [item(k) for k in range(pre)], "first columns: %s" % (I.iterate(head, st)[1],), w)
        for c in range(rep):
            for r in range(n):
                g = I.getitem(I.getitem(par, num(c), st, None), num(r), st, None)
                chk.same("R31.catalogue", "%s: %d of %d" % (nm, c, r), I.term(g, st), item(pre + r * rep + c), where=w)


ARGS = {"startFreq_Hz": "startFreq_Hz", "endFreq_Hz": "endFreq_Hz", "nChans": "nChans", "rmsNoise": "rmsNoise", "beamMinFWHM_deg": "beamMinFWHM_deg", "beamMajFWHM_deg": "beamMajFWHM_deg", "beamPA_deg": "beamPA_deg",
        "pixScale_deg": "pixScale_deg", "xCent_deg": "xCent_deg", "yCent_deg": "yCent_deg", "nPixX": "nPixX", "nPixY": "nPixY", "coordSys": "coordSys"}


def program(chk, w):
    """rmtools_testdata3D hands its settings and arguments to create_IQU_cube_data"""
    for sc, given in (("plain", {}), ("all given", dict(noiseTmpFile=string(TABLE), flagFreqStr=string("8e8,9e8,1.1e9,1.2e9")))):
        fs, cli, c = FS(), Cli(dict(given, inCatFile=[string("cat.csv")], dataPath=string("out"))), Calls()
        q = A3 + "create_IQU_cube_data"
        I = chk.interp(hooks={**fs.hooks(), **cli.hooks(), q: c.hook(q, lambda I, st, a: num(3))})
        st = I.new_state()
        fs.text[TABLE] = ("array", st.heap[table(I, st).id])
        v, st = I.run(A3 + "main", [], {}, st)
        chk.absorb(I)
        a, st1 = c.one(q)
        for k, g in ARGS.items():
            x, st1 = I.run("specs.testdata.setting", [string(g)], {}, st1)
            chk.same("R31.program", "%s: %s" % (sc, k), I.term(a.get(k, NONE), st1), I.term(x, st1), where=w)
        for k, x in (("dataPath", "out"), ("inCatFile", "cat.csv")):
            chk.same("R31.program", "%s: %s" % (sc, k), I.term(a[k], st1), string(x), where=w)
        fl = a.get("flagRanges_Hz")
        got = [] if fl is None else [tuple(const_val(I.term(y, st1)) for y in I.iterate(x, st1)[1]) for x in I.iterate(fl, st1)[1]]
        chk.holds("R31.program", sc + ": flagged ranges", got == ([(8 * 10 ** 8, 9 * 10 ** 8), (11 * 10 ** 8, 12 * 10 ** 8)] if given else []), "ranges: %s" % (got,), w)
        nz = a.get("noiseTmpArr", NONE)
        if given:
            ref = I.call(Ext("numpy.transpose"), [table(I, st1)], {}, st1, None)
            chk.same_value("R31.program", sc + ": noise curve", nz, st1, ref, st1, where=w, vals=vals)
        else:
            chk.holds("R31.program", sc + ": noise curve", nz is NONE, "a curve without a table", w)


def run(chk):
    T.FINITE.update(("f1", "f2", "noisecurve"))
    w = chk.where(A1 + "create_IQU_ascii_data")
    for sc, g in CASES.items():
        chk.guarded("R31.ascii", sc, lambda: ascii(chk, sc, g, w), w)
    w = chk.where(A3 + "create_IQU_cube_data")
    for f, q in ((reader, UM + "csv_read_to_list"), (split, UM + "split_repeat_lst"), (program, A3 + "main")):
        chk.guarded("R31.catalogue" if f is not program else "R31.program", f.__name__, lambda: f(chk, chk.where(q)), chk.where(q))
    w2 = chk.where(UM + "twodgaussian")
    chk.guarded("R31.gaussian", "twodgaussian", lambda: ellipse(chk, w2), w2)
    for sc, g in CUBES.items():
        chk.guarded("R31.cube", sc, lambda: build(chk, sc, g, w), w)
    return dict(floor=200, explanation="argparse, the text and FITS files, astropy's WCS and numpy's random generator are modelled: each draw is an array of symbolic deviates marked by a label of its own. rmtools_testdata1D and create_IQU_cube_data run in the value-numbering interpreter on a symbolic catalogue; every column and plane is split into the part free of deviates and the coefficient of each deviate, and both are compared as terms with specs/testdata. The header cards, the header given to the WCS, the reader of the catalogue and the elliptical Gaussian are decided separately.")
