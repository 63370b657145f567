"""rmsynth1dFITS and rmtools_freqfile: the spectrum of the requested pixel, the frequencies of the cube's spectral axis, the cube's units"""
from .common import *
from .fs import FS
from .p21 import F, FF, Flags, MA, Seen, called
from sa.rint import u01

FR = "RMtools_3D.make_freq_file."
A = lambda I, st, n, l, **k: I.input_array(st, n, l, **k)


class World:
    """astropy WCS of one cube: 0-based pixel of a sky position, spectral coordinate of a 0-based channel"""

    def __init__(self, nchan):
        self.nchan = nchan
        self.headers = []

    def hooks(self):
        def wcs(I, args, kw, st, node):
            h = args[0] if args else kw.get("header", NONE)
            f = T.str_const(I.term(self.of(I, h, st), st))
            n = Tup([self.nchan])
            spec = I.alloc(st, Ob("ext:wcs", {"file": string(f), "part": string("spectral"), "array_shape": n, "pixel_shape": n, "_naxis": n}))
            return I.alloc(st, Ob("ext:wcs", {"file": string(f), "part": string("all"), "spectral": spec}))

        def world2pix(I, args, kw, st, node):
            o = self.mine(args[0], st)
            if o is None:
                return NotImplemented
            ra, dec = [I.term(a, st) for a in args[1:3]]
            org = I.term(args[3] if len(args) > 3 else kw.get("origin", ZERO), st)
            f = o.attrs["file"]
            return Tup([T.add(el("pix" + n, [f, ra, dec]), org) for n in "xy"])

        def spectral(I, args, kw, st, node):
            o = self.mine(args[0], st)
            if o is None or T.str_const(o.attrs["part"]) != "spectral":
                return NotImplemented
            f = o.attrs["file"]
            r = I.ew(lambda x: el("chanfreq", [f, x]), [args[1]], st)
            return r
        return {"astropy.wcs.WCS": wcs, "astropy.wcs.wcs.WCS": wcs, ".all_world2pix": world2pix, ".wcs_world2pix": world2pix, ".pixel_to_world_values": spectral}

    def of(self, I, h, st):
        o = st.heap[h.id] if isinstance(h, Ref) else None
        if isinstance(o, Dct):
            v = o.ent.get(string("FILE").key)
            if v is not None:
                return v[1]
        raise Abort("the header given to WCS is not the header of a file")

    def mine(self, v, st):
        o = st.heap[v.id] if isinstance(v, Ref) else None
        return o if isinstance(o, Ob) and o.cls == "ext:wcs" else None


def disk(I, st, names, bunit):
    fs = FS()
    for n in names:
        T.set_length("f", num(5))
        arr = st.heap[A(I, st, n, ["f", "y", "x"]).id]
        ent = {string("FILE").key: (string("FILE"), string("dir/%s.fits" % n))}
        if bunit and n == "q":
            ent[string("BUNIT").key] = (string("BUNIT"), string("K"))
        fs.files["dir/%s.fits" % n] = [(arr, ent)]
    return fs


def freqs(I, st, n):
    a = A(I, st, "chan", ["f"])
    return I.ew(lambda x: el("chanfreq", [string(n), x]), [I.alloc(st, Arr(st.heap[a.id].axes, lab(st.heap[a.id].axes[0].label)))], st)


def extract(chk, sc, flags, xy, w):
    """what rmsynth1dFITS hands to RM synthesis"""
    sky, stokesI = "-c" in flags, "-I" in flags
    pos = dict(dataFile=["dir/q.fits"], UFile=["dir/u.fits"])
    if xy:
        pos.update(xcoords=F("xc"), ycoords=F("yc"))
    s = Seen({FF + "run_rmsynth": MA, FF + "saveOutput": lambda I, st, a: NONE})
    f = Flags(flags, pos, None)
    T.set_length("f", num(5))
    W = World(num(5))
    hooks = {}
    fs = FS()
    hooks.update(fs.hooks())
    hooks.update(W.hooks())
    hooks.update(s.hooks(chk.repo))
    hooks.update(f.hooks())
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    names = ["q", "u"] + (["i"] if stokesI else [])
    fs.files.update(disk(I, st, names, "no unit" not in sc).files)
    I.run(FF + "main", [], {}, st)
    chk.absorb(I)
    for b in f.bad:
        chk.holds("R28.option", sc, False, b, w)
    got = [x for x in called(s, None) if x[0].endswith("run_rmsynth")]
    if not chk.holds("R28.run", sc, len(got) == 1 and got[0][1] is not None, "RM synthesis is run %d times" % len(got), w) == "HOLDS":
        return
    q, a, g, st1 = got[0]
    # reference
    I2 = chk.interp()
    st2 = I2.new_state()
    if sky:
        x, y = [T.boolatom and I2.call(Ext("numpy.round"), [el("pix" + n, [string("dir/q.fits"), sym("opt xc"), sym("opt yc")])], {}, st2, None) for n in "xy"]
    else:
        v, st2 = I2.run("specs.tools.pixel", [sym("opt xc") if xy else ONE, sym("opt yc") if xy else ONE], {}, st2)
        x, y = chk.elements(v, 2)
    cubes = [A(I2, st2, n, ["f", "y", "x"]) for n in (["i"] if stokesI else []) + ["q", "u"]]
    r, st2 = I2.run("specs.tools.extracted", [freqs(I2, st2, "dir/q.fits"), I2.alloc(st2, Lst(cubes)), x, y], {}, st2)
    n = 7 if stokesI else 5
    d, e = chk.elements(chk.deref(a["data"], st1), n), chk.elements(chk.deref(r, st2), n)
    if d is None:
        chk.holds("R28.data", sc, False, "expected %d columns, found %r" % (n, chk.deref(a["data"], st1)), w)
        return
    nm = ["freq"] + (["I"] if stokesI else []) + ["Q", "U"] + (["dI"] if stokesI else []) + ["dQ", "dU"]
    for k, gv, wv in zip(nm, d, e):
        chk.same_value("R28.data", "%s: %s" % (sc, k), gv, st1, wv, st2, where=w)
    chk.same("R28.units", sc, I.term(a["units"], st1), string(flags["-U"]) if "-U" in flags else string("Jy/beam" if "no unit" in sc else "K"), where=w)
    chk.same("R28.prefix", sc, I.term(a["prefixOut"], st1), string("dir/q"), where=w) if "-S" in flags else None
    k = 1 + stokesI
    z, st2 = I2.run("specs.tools.nonzero", [e[k], e[k + 1]], {}, st2)
    chk.same("R28.run", sc + ": unless all of Q and U is zero", T.ite(g, ONE, ZERO), T.ite(I2.truth(z, st2) if hasattr(I2, "truth") else z, ONE, ZERO), where=w, vals=vals)


def vals(m, name, idx):
    """cubes that are zero everywhere, without blanks, are among the trials"""
    if name in ("isnan", "isinf"):
        return False if u01(m.seed, "fin") < 0.7 else None
    if name in ("q", "u") and idx is not None and u01(m.seed, "zero", name) < 0.5:
        return 0.0
    return None


def freqfile(chk, w):
    fs, W = FS(), World(num(5))
    T.set_length("f", num(5))
    f = Flags({}, dict(fits_file=["dir/q.fits"], freq_file="out.dat"), None)
    I = chk.interp(hooks={**fs.hooks(), **W.hooks(), **f.hooks()})
    st = I.new_state()
    fs.files.update(disk(I, st, ["q"], True).files)
    I.run(FR + "save_freq_file", [], {}, st)
    chk.absorb(I)
    for b in f.bad:
        chk.holds("R28.option", "rmtools_freqfile", False, b, w)
    if not chk.holds("R28.freqfile", "file", [x[0] for x in fs.writes] == ["out.dat"], "files written: %s" % fs.writes, w) == "HOLDS":
        return
    I2 = chk.interp()
    st2 = I2.new_state()
    v = I2.alloc(st2, fs.text["out.dat"][1])
    chk.same_value("R28.freqfile", "frequencies", v, st2, freqs(I2, st2, "dir/q.fits"), st2, where=w)


def run(chk):
    w = chk.where(FF + "main")
    for sc, flags, xy in [("pixel", {}, True), ("first pixel", {}, False), ("sky", {"-c": True}, True), ("pixel with Stokes I", {"-I": "dir/i.fits"}, True), ("sky with Stokes I", {"-c": True, "-I": "dir/i.fits"}, True), ("no unit in the header", {}, True), ("units given", {"-U": "mJy"}, True), ("saved", {"-S": True, "-b": True}, True)]:
        chk.guarded("R28.data", sc, lambda: extract(chk, sc, flags, xy, w), w)
    w2 = chk.where(FR + "save_freq_file")
    chk.guarded("R28.freqfile", "rmtools_freqfile", lambda: freqfile(chk, w2), w2)
    return dict(floor=40, explanation="Astropy's WCS, FITS files and argparse are modelled: a cube is a symbolic array with a header that names it, a WCS maps sky positions to symbolic 0-based pixels and channel numbers to symbolic frequencies. The value-numbering interpreter runs rmsynth1dFITS and rmtools_freqfile on them; every column handed to RM synthesis and the saved frequencies are compared as terms with the reference extraction.")
