"""cutting a cube into chunks and assembling them again: the pixel maps of the two tools are inverses"""
import fnmatch
import math
import re
from .common import *
from .cli import Cli
from .fs import FS, Missing, cube_header, cube

CR, AS = "RMtools_3D.create_chunks.main", "RMtools_3D.assemble_chunks.main"
X, Y, N = length("x"), length("y"), length("chunkpix")
LAYOUTS = {
    "frequency, y, x": [("RA", "x"), ("DEC", "y"), ("FREQ", "f")],
    "Stokes, frequency, y, x": [("RA", "x"), ("DEC", "y"), ("FREQ", "f"), ("STOKES", None)],
    "frequency, Stokes, y, x": [("RA", "x"), ("DEC", "y"), ("STOKES", None), ("FREQ", "f")],
    "y, x": [("RA", "x"), ("DEC", "y")],
}


class Disk(FS):
    """the output file is filled piece by piece: keep what is stored where"""

    def load(self, I, st, n, item=None):
        out = FS.load(self, I, st, n, item)
        for h in out or []:
            if st.heap[h.id].attrs["data"] is NONE:
                st.heap[h.id].attrs["data"] = self.big = I.alloc(st, Ob("bigdata", {}))
        return out


def run(chk):
    counts = (1, 2, 3, 11) if chk.tier == "quick" else (1, 2, 3, 9, 10, 11, 12, 100, 101)
    for lay in LAYOUTS:
        for n in counts if lay == "frequency, y, x" else (1, 3):
            for pre in (None, "out.d/p.Core.v1") if n in (1, 3) else (None,):
                nm = "%s, %d chunk%s, prefix %s" % (lay, n, "s" * (n > 1), pre or "from the name")
                chk.guarded("R16", nm, lambda: trip(chk, nm, lay, n, pre), chk.where(CR))
    for bad in ("missing", "stray"):
        chk.guarded("R16.refuse", bad, lambda: trip(chk, "%s chunk" % bad, "frequency, y, x", 3, None, bad), chk.where(AS))
    return dict(floor=60, explanation="An abstract file system keeps what create_chunks writes, and assemble_chunks is analysed on exactly those files (argparse, glob and the pre-allocated output modelled, the number of chunks fixed, all extents symbolic). For every chunk the term stored at the destination index of the output must be the input at that same index, the flat pixel numbers of the chunks must follow each other without gap up to the number of pixels, and the header must be the original one.")


def hooks(chk, rule, nm, n, fs, log):
    def const(f):
        def h(I, args, kw, st, node):
            v = const_val(args[0]) if isinstance(args[0], E) and args[0].kind == "poly" else None
            return num(f(v)) if v is not None else NotImplemented
        return h

    def ceil(I, args, kw, st, node):
        log.setdefault("chunks", []).append(args[0])
        return num(n)

    def glob(I, args, kw, st, node):
        p = I.term(args[0], st)
        p = T.str_const(p) if T.is_str_const(p) else None
        if p is None:
            raise Abort("glob pattern is not determined")
        return I.alloc(st, Lst([string(x) for x in reversed(sorted(fs.files)) if fnmatch.fnmatch(x, p)]))

    def search(I, args, kw, st, node):
        a, b = I.term(args[0], st), I.term(args[1], st)
        if not T.is_str_const(a) or not T.is_str_const(b):
            return NotImplemented
        a, b = T.str_const(a), T.str_const(b)
        m = re.search(a, b)
        return I.alloc(st, Ob("match", {"s": num(m.start()), "e": num(m.end())})) if m else NONE

    def attr(k):
        def h(I, args, kw, st, node):
            o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
            return o.attrs[k] if isinstance(o, Ob) and o.cls == "match" else NotImplemented
        return h

    def seek(I, args, kw, st, node):
        log.setdefault("seek", []).append(args[1])
        return NONE

    def tostring(I, args, kw, st, node):
        o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
        return string("#" * 0) if False else (fn("headertext", opq=False) if isinstance(o, Dct) and o.kind == "header" else NotImplemented)

    def len_(I, args, kw, st, node):
        if isinstance(args[0], E) and args[0] is fn("headertext", opq=False):
            return sym("headerbytes", pos=True)
        return NotImplemented
    h = dict(fs.hooks())
    h.update({"math.ceil": ceil, "numpy.ceil": ceil, "math.log10": const(math.log10), "numpy.log10": const(math.log10), "math.floor": const(math.floor), "numpy.floor": NotImplementedHook, "glob.glob": glob, "re.search": search, ".start": attr("s"), ".end": attr("e"), ".seek": seek, ".tostring": tostring, "builtins.len": len_})
    h.pop("numpy.floor")
    return h


NotImplementedHook = None


def trip(chk, nm, lay, n, pre, bad=None):
    axes = LAYOUTS[lay]
    src = "data/my.cube.fits"
    fs, log = Disk(), {}
    c1 = Cli({"infile": string(src), "Nperchunk": N, "prefix": string(pre) if pre else NONE})
    I = chk.interp(hooks=dict(hooks(chk, "R16", nm, n, fs, log), **c1.hooks()))
    st = I.new_state()
    h0 = cube_header(axes, {"BITPIX": num(-32)})
    data = cube(I, st, "data", axes)
    d0 = st.heap[data.id]
    fs.files[src] = [(d0, {string(k).key: (string(k), v) for k, v in h0.items()})]
    try:
        v, st = I.run(CR, [], {}, st)
    except Missing as e:
        chk.holds("R16.create", nm, False, str(e), chk.where(CR))
        return
    chk.absorb(I)
    out = [f for f in fs.files if f != src]
    w_ = chk.where(CR)
    if v is BOTTOM:
        r = [e for e in I.effects if e.kind == "raise"]
        chk.holds("R16.create", nm + ": completes", False, "raises %s" % (r[-1].name if r else "?"), w_)
        return
    chk.holds("R16.create", nm + ": chunks of an earlier run are replaced", not fs.fragile, "%s is not overwritten" % ", ".join(fs.fragile[:3]), w_)
    base = pre or "data/my.cube"
    dg = len(str(n))
    want = ["%s.C%0*d.fits" % (base, dg, i) for i in range(n)]
    chk.holds("R16.names", nm + ": file names", sorted(out) == want, "writes %s, expected %s" % (out[:12], want[:12]), w_)
    for q in log.get("chunks", []):
        chk.same("R16.count", nm + ": number of chunks before rounding up", q, T.div(T.mul(X, Y), N), where=w_)
    for i, f in enumerate(sorted(out)):
        (arr, ent), = fs.files[f]
        g = lambda k: ent[string(k).key][1] if string(k).key in ent else None
        for k, v in (("OLDXDIM", X), ("OLDYDIM", Y)):
            chk.same("R16.create", "%s: %s of chunk %d" % (nm, k, i), g(k), v, where=w_) if g(k) is not None else chk.holds("R16.create", "%s: %s of chunk %d" % (nm, k, i), False, "not written", w_)
        chk.holds("R16.create", "%s: axes of chunk %d" % (nm, i), len(arr.axes) == len(axes) and not (arr.axes[-2].label or arr.axes[-2].parts), "shape %s" % (arr.axes,), w_)
    if bad == "missing":
        del fs.files[sorted(out)[1]]
    if bad == "stray":
        fs.files[base + ".C7.fits"] = fs.files[sorted(out)[1]]
    # ------------------------------------------------ assembling
    outs = (None, "res/whole.fits") if pre is None and not bad else (None,)
    for o in outs:
        for over in (False, True) if not bad else (False,):
            assemble(chk, nm + (" -o" if over else ""), fs, n, axes, base, sorted(out), o, log, d0, h0, bad, over)


def assemble(chk, nm, fs0, n, axes, base, out, oname, log0, d0, h0, bad, over):
    w_ = chk.where(AS)
    fs, log = Disk(), {}
    fs.files = dict(fs0.files)
    c2 = Cli({"chunkname": string(out[-1]), "output": string(oname) if oname else NONE, **({"overwrite": TRUE} if over else {})})
    I = chk.interp(hooks=dict(hooks(chk, "R16", nm, n, fs, log), **c2.hooks()))
    st = I.new_state()
    v, st = I.run(AS, [], {}, st)
    chk.absorb(I)
    target = oname or base + ".fits"
    if not bad and v is not BOTTOM:
        chk.holds("R16.overwrite", nm + ": an existing output is " + ("replaced" if over else "kept"), over != (target in fs.fragile), "asking for replacement: %s, replaces: %s" % (over, target not in fs.fragile), w_)
    if bad:
        touched = [f for f, g, nd in fs.writes]
        chk.holds("R16.refuse", nm + ": refused", v is BOTTOM, "chunks that do not belong together are assembled", w_)
        chk.holds("R16.refuse", nm + ": no output", not touched, "%s is written before the chunks are checked" % ", ".join(touched), w_)
        return
    if v is BOTTOM:
        r = [e for e in I.effects if e.kind == "raise"]
        chk.holds("R16.assemble", nm + ": completes", False, "raises %s" % (r[-1].name if r else "?"), w_)
        return
    tag = nm + (" as " + oname if oname else "")
    chk.holds("R16.names", tag + ": output name", target in fs.files and all(f == target for f, g, nd in fs.writes), "writes %s, expected %s" % (sorted({f for f, g, nd in fs.writes}), target), w_)
    if target not in fs.files:
        return
    ent = {k: v for k, v in fs.files[target][0][1].items()}
    for k, v in h0.items():
        e = ent.get(string(k).key)
        if e is None:
            chk.holds("R16.header", "%s: %s" % (tag, k), False, "missing from the assembled cube", w_)
        else:
            chk.same("R16.header", "%s: %s" % (tag, k), I.term(e[1], st), v, where=w_)
    extra = sorted(T.str_const(k) for k, _ in ent.values() if T.str_const(k) not in h0)
    chk.holds("R16.header", tag + ": no leftover cards", not extra, "extra cards %s" % extra, w_)
    # ------------------------------------------------ where the pixels go
    sets = [e for e in I.effects if e.kind == "setitem" and e.args and isinstance(e.args[0], Ref) and isinstance(st.heap.get(e.args[0].id), Ob) and st.heap[e.args[0].id].cls == "bigdata"]
    chk.holds("R16.coverage", tag + ": every chunk is stored once", len(sets) == n, "%d pieces are stored for %d chunks" % (len(sets), n), w_)
    flats = []
    for i, e in enumerate(sets):
        keys = list(e.args[1].items) if isinstance(e.args[1], Tup) else [e.args[1]]
        full = lambda x: isinstance(x, SliceV) and all(q is None or q is NONE for q in (x.lo, x.hi, x.step))
        if len(keys) != len(axes) or not all(full(k) for k in keys[:-2]):
            raise Abort("the destination of chunk %d is not understood" % i)
        ya, xa = [st.heap[k.id] if isinstance(k, Ref) else None for k in keys[-2:]]
        val = e.args[2]
        va = st.heap[val.id] if isinstance(val, Ref) else None
        if not all(isinstance(a, Arr) and a.axes is not None and len(a.axes) == 1 for a in (ya, xa)) or not isinstance(va, Arr) or va.axes is None:
            raise Abort("the destination of chunk %d is not understood" % i)
        pa = ya.axes[0]
        vax = [a for a in va.axes if a.label or a.parts]
        sax = [a for a in d0.axes[:-2] if a.label]
        if len(vax) != len(sax) + 1:
            chk.holds("R16.pixels", "%s: shape of piece %d" % (tag, i), False, "axes %s go to %s" % (va.axes, d0.axes), e.loc)
            continue
        # the value stored at destination (y', x') must be the input at (y', x')
        mp = {d0.axes[-1].label: T.subst(xa.expr, {xa.axes[0].label: lab(pa.label)}), d0.axes[-2].label: ya.expr}
        ref = T.subst(d0.expr, mp)
        back = {vax[-1].label: lab(pa.label)}
        back.update({a.label: lab(b.label) for a, b in zip(vax[:-1], sax)})
        chk.same("R16.pixels", "%s: content of piece %d" % (tag, i), T.subst(va.expr, back), ref, where=e.loc)
        m = lambda a: T.subst(a.mask, {a.label: lab("j")})
        for q in (xa.axes[0], vax[-1]):
            chk.same("R16.pixels", "%s: pixels of piece %d" % (tag, i), m(q), m(pa), where=e.loc)
        j = {pa.label: lab("j")}
        cy, cx = T.subst(ya.expr, j), T.subst(xa.expr, {xa.axes[0].label: lab("j")})
        flats.append((add(mul(cx, Y), cy), add(mul(cy, X), cx), cy, cx, m(pa), e.loc, pa.L))
    # the flat numbers of the pixels follow each other
    T.set_length("j", N)
    for i, (a, b, cy, cx, mask, loc, L) in enumerate(flats):
        p = add(mul(num(i), N), lab("j")) if n > 1 else lab("j")
        forms = [(fn_mod(p, Y), fn_div(p, Y)), (fn_div(p, X), fn_mod(p, X))]
        ok = [cy is f[0] and cx is f[1] for f in forms]
        if not any(ok):
            k = 0
            chk.same("R16.coverage", "%s: rows of piece %d" % (tag, i), cy, forms[k][0], where=loc)
            chk.same("R16.coverage", "%s: columns of piece %d" % (tag, i), cx, forms[k][1], where=loc)
        else:
            chk.holds("R16.coverage", "%s: flat pixel numbers of piece %d" % (tag, i), True, "", loc)
        if i < n - 1:
            chk.holds("R16.coverage", "%s: piece %d is full" % (tag, i), mask is TRUE, "only pixels %s" % show(mask), loc)
        elif mask is not TRUE:
            chk.same("R16.coverage", "%s: last piece goes up to the last pixel" % tag, mask, compare("<", p, mul(X, Y)), where=loc)
    sk = log.get("seek", [])
    size = num(32 // 8)
    for a in axes:
        size = mul(size, length(a[1]) if a[1] else ONE)
    for q in sk:
        chk.same("R16.size", tag + ": size of the output", q, T.sub(add(sym("headerbytes", pos=True), size), ONE), where=w_)
    chk.holds("R16.size", tag + ": file is extended once", len(sk) == 1, "%d seeks" % len(sk), w_)


def fn_mod(a, b):
    from sa.interp import _mod
    return _mod(a, b)


def fn_div(a, b):
    from sa.interp import _floordiv
    return _floordiv(a, b)
