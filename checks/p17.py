"""cut-outs: the pixels asked for, at the sky coordinates and depths they had"""
from .common import *
from .cli import Cli
from .fs import FS, Missing, cube_header, cube
from .p16 import LAYOUTS

Q = "RMtools_3D.extract_region.main"
M1 = num(-1)


def case(l, how):
    """(limits typed, first, last) for an axis of extent lo + mid + hi (all at least one)"""
    a, b, c = [length(l + k) for k in "abc"]
    n = add(a, b, c, ONE)  # more than one
    T.set_length(l, n)
    lo, hi = add(a, ONE), add(a, b, ONE)
    return n, {
        "inside": ([lo, hi], lo, hi),
        "no upper limit": ([lo, M1], lo, n),
        "no lower limit": ([M1, hi], ONE, hi),
        "no limits": ([M1, M1], ONE, n),
        "beyond": ([T.neg(a), add(n, b)], ONE, n),
        "whole": ([ONE, n], ONE, n),
        "single": ([lo, lo], lo, lo),
        "from zero": ([num(0), hi], ONE, hi),
        "zero to one beyond": ([num(0), add(n, ONE)], ONE, n),
        "to the last": ([lo, n], lo, n),
        "last only": ([n, n], n, n),
        "last to one beyond": ([n, add(n, ONE)], n, n),
        "first only": ([ONE, ONE], ONE, ONE),
    }[how]


HOW = ("inside", "no upper limit", "no lower limit", "no limits", "beyond", "whole", "single", "from zero", "zero to one beyond", "to the last", "last only", "last to one beyond", "first only")
Z = (None, "inside", "no upper limit", "no lower limit", "beyond", "from zero", "zero to one beyond", "first only", "last only")


def run(chk):
    w_ = chk.where(Q)
    for lay in LAYOUTS:
        for i, hx in enumerate(HOW):
            for hy in HOW if chk.tier == "thorough" else (HOW[(i + 3) % len(HOW)], HOW[(i + 7) % len(HOW)]):
                for hz in (Z if "frequency" in lay else (None,)):
                    nm = "%s; x %s, y %s, third axis %s" % (lay, hx, hy, hz or "not given")
                    chk.guarded("R17", nm, lambda: cut(chk, nm, lay, hx, hy, hz, False, w_), w_)
        nm = lay + "; box given by its centre"
        chk.guarded("R17", nm, lambda: cut(chk, nm, lay, "inside", "inside", None, True, w_), w_)
    chk.guarded("R17.refuse", "existing file", lambda: refuse(chk, w_), w_)
    return dict(floor=300, explanation="The tool is analysed with an abstract file system and a modelled command line; box limits and extents are symbolic (every extent is a sum of positive integers, so each limit is provably inside, outside or absent). The written array must be the input shifted by the first pixel on each axis, with the extents asked for, and the reference pixels must move by the same amount while every other card is unchanged.")


def cut(chk, nm, lay, hx, hy, hz, center, w_):
    axes = LAYOUTS[lay]
    nx, (tx, x0, x1) = case("x", hx)
    ny, (ty, y0, y1) = case("y", hy)
    nf, (tf, f0, f1) = case("f", hz or "whole")
    fs = FS()
    box = tx + ty
    if center:
        cx, cy, hw, hh = [length(k) for k in ("xca", "yca", "xwa", "ywa")]
        # centre = first + halfwidth
        T.set_length("x", add(cx, mul(num(2), hw), length("xcc")))
        T.set_length("y", add(cy, mul(num(2), hh), length("ycc")))
        box = [add(cx, hw), hw, add(cy, hh), hh]
        x0, x1, y0, y1 = cx, add(cx, mul(num(2), hw)), cy, add(cy, mul(num(2), hh))
    given = {"infile": string("in.fits"), "outfile": string("out.fits"), "box": list(box), "center": TRUE if center else FALSE, "overwrite": TRUE}
    if hz:
        given["zlim"] = list(tf)
    c = Cli(given)
    I = chk.interp(hooks=dict(fs.hooks(), **c.hooks()))
    st = I.new_state()
    h0 = cube_header(axes, {"BITPIX": num(-32)})
    d0 = st.heap[cube(I, st, "data", axes).id]
    fs.files["in.fits"] = [(d0, {string(k).key: (string(k), v) for k, v in h0.items()})]
    v, st = I.run(Q, [], {}, st)
    chk.absorb(I)
    if "out.fits" not in fs.files:
        r = [e for e in I.effects if e.kind == "raise"]
        chk.holds("R17.data", nm + ": a file is written", False, "nothing is written; %s" % (r[-1].name if r else "no error"), w_)
        return
    (arr, ent), = fs.files["out.fits"]
    lims = {"x": (x0, x1), "y": (y0, y1), "f": (f0, f1)}
    if len(arr.axes) != len(axes):
        chk.holds("R17.data", nm + ": number of axes", False, "%d axes, expected %d" % (len(arr.axes), len(axes)), w_)
        return
    mp, back = {}, {}
    for (ct, l), a in zip(reversed(axes), arr.axes):
        if l is None:
            chk.holds("R17.data", "%s: %s axis" % (nm, ct), a.label is None and not a.parts, "extent %s" % show(a.L), w_)
            continue
        lo, hi = lims[l]
        n = T.add(T.sub(hi, lo), ONE)
        chk.same("R17.data", "%s: extent of the %s axis" % (nm, ct), a.L if a.label else ONE, n, where=w_)
        T.set_length("o" + l, n)
        if a.label:
            back[a.label] = lab("o" + l)
        else:
            back = dict(back)
        mp[l] = add(lo, lab("o" + l), M1)
    if len(back) == len(mp):
        chk.same("R17.data", nm + ": content", T.subst(arr.expr, back), T.subst(d0.expr, mp), where=w_)
    want = dict(h0)
    for i, (ct, l) in enumerate(axes):
        if l:
            k = "CRPIX%d" % (i + 1)
            want[k] = T.add(T.sub(h0[k], lims[l][0]), ONE)
            want["NAXIS%d" % (i + 1)] = T.add(T.sub(lims[l][1], lims[l][0]), ONE)
    for k, x in want.items():
        e = ent.get(string(k).key)
        if e is None:
            chk.holds("R17.header", "%s: %s" % (nm, k), False, "missing", w_)
        else:
            chk.same("R17.header", "%s: %s" % (nm, k), I.term(e[1], st), x, where=w_)
    extra = sorted(T.str_const(k) for k, _ in ent.values() if T.str_const(k) not in want)
    chk.holds("R17.header", nm + ": no other cards", not extra, "extra cards %s" % extra, w_)
    chk.holds("R17.data", nm + ": only the output is written", {f for f, g, nd in fs.writes} == {"out.fits"}, "writes %s" % sorted({f for f, g, nd in fs.writes}), w_)


def refuse(chk, w_):
    for ow in (False, True):
        fs = FS()
        case("x", "inside"), case("y", "inside"), case("f", "whole")
        c = Cli({"infile": string("in.fits"), "outfile": string("out.fits"), "box": [M1] * 4, "overwrite": TRUE if ow else FALSE})
        I = chk.interp(hooks=dict(fs.hooks(), **c.hooks()))
        st = I.new_state()
        axes = LAYOUTS["frequency, y, x"]
        d0 = st.heap[cube(I, st, "data", axes).id]
        h0 = cube_header(axes, {})
        fs.files["in.fits"] = [(d0, {string(k).key: (string(k), v) for k, v in h0.items()})]
        I.run(Q, [], {}, st)
        chk.holds("R17.refuse", "an existing output file, overwriting %s" % ("allowed" if ow else "not allowed"), bool(fs.writes) == ow, "the file is %swritten" % ("" if fs.writes else "not "), w_)
