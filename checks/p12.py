"""rmtools_calcRMSF: the RMSF properties it reports are those of the RMSF of the channels and weights given"""
import re

from .common import *
from .cli import Cli
from .p21 import Seen
from .tools import A
from .fs import FS, Missing
from sa.interp import Ax

M = "RMtools_1D.calculate_RMSF."
D = M + "determine_RMSF_parameters"
RP = "RMutils.util_RM.get_rmsf_planes"
CL = sym("c_light", pos=True)
FWHM = sym("fwhm", pos=True)


def planes(I, st, a):
    return Tup([A(I, st, "R", ["e"], real=False), A(I, st, "phi2", ["e"]), FWHM, sym("fit"), sym("lam0")], ("RMSFcube", "phi2Arr", "fwhmRMSFArr", "fitStatArr", "lam0Sq_m2"), "RMSFResults")


def pieces(t):
    """a text as (constant before on the line, number, format, constant after on the line)"""
    flat = list(t.d) if t.kind == "str" else [t]
    out, line = [], []

    def close():
        txt = " ".join("".join(x if isinstance(x, str) else "#" for x in line).split())
        nums = [x for x in line if not isinstance(x, str)]
        if nums:
            out.append((txt, nums))
        line.clear()
    for p in flat:
        if isinstance(p, str):
            ls = p.split("\n")
            for i, x in enumerate(ls):
                if i:
                    close()
                line.append(x)
        else:
            line.append(p)
    close()
    return out



def lens(seed, t):
    """enough depths for several sidelobes on each side"""
    return {"e": 25 + 2 * ((seed + 3 * t) % 5), "f": 4 + (seed + t) % 3}


LABELS = (("theoretical width", r"theor.*fwhm", (0,)), ("measured width", r"meas.*fwhm", (1,)), ("largest scale", r"largest", (2,)), ("maximum depth", r"maximum", (3,)), ("first sidelobe", r"sidelobe.*rad", ("d",)), ("sidelobe amplitude", r"% of peak", ("a",)))
PANEL = LABELS + (("lowest frequency", r"^lowest", (4, 5)), ("highest frequency", r"^highest", (6, 7)), ("number of channels", r"channels", (8,)))


def run(chk):
    w = chk.where(D)
    for phimax in (NONE, sym("phimax", pos=True)):
        for dphi in (NONE, sym("dphi", pos=True)):
            for sup in (FALSE, TRUE):
                for out, title in ((NONE, string("my title")), (string("o.d/p.pdf"), NONE)):
                    nm = "%s, %s%s%s" % ("default extent" if phimax is NONE else "extent given", "default step" if dphi is NONE else "step given", ", super-resolution" if sup is TRUE else "", ", saved" if out is not NONE else "")
                    chk.guarded("R12.properties", nm, lambda: props(chk, nm, phimax, dphi, sup, out, title, w), w)
    w = chk.where(M + "main")
    for nm, kw in (("one column", dict(cols=1)), ("two columns", dict(cols=2)), ("one column, weight file", dict(cols=1, wf=True)), ("two columns, weight file", dict(cols=2, wf=True)), ("range of frequencies", dict(cols=0, rng=True)), ("file and range", dict(cols=1, rng=True)), ("two columns and range", dict(cols=2, rng=True))):
        chk.guarded("R12.input", nm, lambda: tool(chk, nm, w, **kw), w)
    return dict(floor=60, explanation="determine_RMSF_parameters is evaluated on symbolic channel frequencies and weights with get_rmsf_planes (property P02) recorded: its arguments, every number in the printed report and in the text panel of the figure (found by the label on its line), the curves plotted and where the figure goes must equal the definitions; main is evaluated on abstract one- and two-column files, weight files and frequency ranges.")


def props(chk, nm, phimax, dphi, sup, out, title, w):
    s = Seen({RP: planes})
    I = chk.interp(hooks=s.hooks(chk.repo))
    st = I.new_state()
    v, st = I.run(D, [A(I, st, "nu", ["f"], pos=True), A(I, st, "wt", ["f"], pos=True), phimax, dphi], dict(plotfile=out, plotname=title, super_resolution=sup), st)
    chk.absorb(I)
    calls = [x for x in s.log if x[0] == RP]
    if v is BOTTOM or not chk.holds("R12.rmsf", nm + ": one RMSF is computed", len(calls) == 1 and calls[0][1] is not None and calls[0][2] is TRUE, "%d calls of get_rmsf_planes%s" % (len(calls), ", none returns" if v is BOTTOM else ""), w):
        return
    a, sa = calls[0][1], calls[0][3]
    J = chk.interp()
    s2 = J.new_state()
    nu = lambda: A(J, s2, "nu", ["f"], pos=True)
    l2, s2 = J.run("specs.calcrmsf.wavelength2", [nu(), CL], {}, s2)
    g, s2 = J.run("specs.calcrmsf.grid", [nu(), CL, phimax, dphi], {}, s2)
    want, s2 = J.run("specs.calcrmsf.properties", [nu(), CL, FWHM], {}, s2)
    rm = A(J, s2, "R", ["e"], real=False)
    side, s2 = J.run("specs.calcrmsf.sidelobe", [rm, A(J, s2, "phi2", ["e"])], {}, s2)
    cur, s2 = J.run("specs.calcrmsf.curves", [rm], {}, s2)
    want = [J.scalar(x, s2) for x in J.iterate(want, s2)[1]]
    side = [J.scalar(x, s2) for x in J.iterate(side, s2)[1]]
    cur = J.iterate(cur, s2)[1]
    chk.same_value("R12.rmsf", nm + ": wavelengths of the RMSF", a["lambdaSqArr_m2"], sa, l2, s2, where=w)
    chk.same_value("R12.rmsf", nm + ": depths of the RMSF", a["phiArr_radm2"], sa, g, s2, where=w)
    chk.same_value("R12.rmsf", nm + ": weights of the RMSF", a["weightArr"], sa, arr_of(["f"], el("wt", [lab("f")], pos=True)), s2, where=w)
    for par, e in (("mskArr", NONE), ("lam0Sq_m2", ZERO if sup is TRUE else NONE), ("double", TRUE), ("fitRMSF", TRUE), ("fitRMSFreal", sup)):
        chk.same("R12.rmsf", "%s: %s of the RMSF" % (nm, par), I.term(a[par], sa), e, where=w)
    val = dict(enumerate(want))
    val["d"], val["a"] = side
    text = T.strcat([x for e in I.effects if e.kind == "print" for x in (list(I.term(p, st) for p in e.args) + [string("\n")])])
    report(chk, nm + ": report", text, LABELS, val, w)
    panel = T.strcat([x for e in I.effects if e.kind == "call" and e.name.split(".")[-1] in ("m:text", "text") for x in (I.term(e.args[-1], st), string("\n"))])
    report(chk, nm + ": figure", panel, PANEL, val, w)
    plots = [e for e in I.effects if e.kind == "call" and e.name.split(".")[-1] in ("m:plot", "plot")]
    for lb, c in zip(("stokes q", "stokes u", "amplitude"), cur):
        m = [e for e in plots if "label" in e.kw and T.is_str_const(I.term(e.kw["label"], st)) and T.str_const(I.term(e.kw["label"], st)).lower() == lb]
        if chk.holds("R12.figure", "%s: curve %s" % (nm, lb), len(m) == 1 and m[0].guard is TRUE, "%d curves" % len(m), w):
            xs = [x for x in m[0].args if not T.is_str_const(I.term(x, st)) and I.num(x, st)[0] is not None]
            if chk.holds("R12.figure", "%s: curve %s has depths and values" % (nm, lb), len(xs) == 2, "%d arrays" % len(xs), w):
                chk.same_value("R12.figure", "%s: depths of the curve %s" % (nm, lb), xs[0], st, arr_of(["e"], el("phi2", [lab("e")])), s2, where=w)
                chk.same_value("R12.figure", "%s: values of the curve %s" % (nm, lb), xs[1], st, c, s2, where=w)
    last = lambda *n: [e for e in I.effects if e.kind == "call" and e.name.split(".")[-1].split(":")[-1] in n]
    sv, sh = last("savefig"), last("show")
    if out is NONE:
        chk.holds("R12.figure", nm + ": the figure is shown", len(sh) == 1 and not sv, "%d shown, %d saved" % (len(sh), len(sv)), w)
    else:
        chk.holds("R12.figure", nm + ": the figure is saved", len(sv) == 1 and any(I.term(x, st).key == out.key for x in sv[0].args), "%d saved" % len(sv), w)
    t = last("title", "set_title", "suptitle")
    chk.holds("R12.figure", nm + ": title", len(t) == 1 and any(I.term(x, st).key == (string("Simulated RMSF") if title is NONE else title).key for x in t[0].args), "%d titles" % len(t), w)


def report(chk, nm, text, labels, val, w):
    ps = pieces(text)
    for what, pat, keys in labels:
        m = [n for t, n in ps if re.search(pat, t.lower())]
        if not chk.holds("R12.report", "%s: %s is reported" % (nm, what), len(m) == 1 and len(m[0]) == len(keys), "%d lines: %s" % (len(m), [t for t, n in ps][:12]), w):
            continue
        for k, x in zip(keys, m[0]):
            at = T.single_atom(x)
            if chk.holds("R12.report", "%s: %s is a number" % (nm, what), at is not None and at.kind == "fn" and at.d[0].startswith("fmt:"), show(x, 200), w):
                chk.same("R12.report", "%s: %s%s" % (nm, what, "" if len(keys) == 1 else " (%s)" % ("frequency" if k in (4, 6) else "wavelength")), at.d[1][0], val[k], where=w, lens=lens)


def tool(chk, nm, w, cols, wf=False, rng=False):
    fs = FS()
    s = Seen({D: lambda I, st, a: NONE})
    given = {}
    if cols:
        given["freqFile"] = string("d.1/f.txt")
    if wf:
        given["weightFile"] = string("w.txt")
    if rng:
        given["freq_parms"] = [sym("lo"), sym("hi"), sym("width", pos=True)]
    cli = Cli(given)
    hooks = dict(fs.hooks(), **s.hooks(chk.repo))
    hooks.update(cli.hooks())
    hooks["numpy.genfromtxt"] = hooks["numpy.loadtxt"]
    keep = {x.key: x for x in given.get("freq_parms", [])}
    hooks["builtins.float"] = lambda I, a, k, st, n: a[0] if a and isinstance(a[0], E) and a[0].key in keep else NotImplemented
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    c0 = el("c0", [lab("f")], pos=True)
    if cols == 1:
        fs.text["d.1/f.txt"] = ("array", Arr((ax("f"),), c0))
    elif cols == 2:
        fs.text["d.1/f.txt"] = ("array", Arr((ax("f"), Ax("col", num(2), None, TRUE)), el("tab", [lab("f"), lab("col")])))
    if wf:
        fs.text["w.txt"] = ("array", Arr((ax("f"),), el("wfile", [lab("f")], pos=True)))
    try:
        v, st = I.run(M + "main", [], {}, st)
    except Missing as ex:
        chk.holds("R12.input", nm + ": reads the files named", False, str(ex), w)
        return
    chk.absorb(I)
    if not chk.holds("R12.input", nm + ": one RMSF is characterised", len(s.log) == 1 and s.log[0][1] is not None and s.log[0][2] is TRUE, "%d calls" % len(s.log), w):
        return
    a, sa = s.log[0][1], s.log[0][3]
    J = chk.interp()
    s2 = J.new_state()
    if cols == 0:
        r, s2 = J.run("specs.calcrmsf.channels", given["freq_parms"], {}, s2)
        fr, wt = chk.elements(r, 2)
    else:
        fr = arr_of(["f"], c0 if cols == 1 else el("tab", [lab("f"), ZERO]))
        wt = el("wfile", [lab("f")], pos=True) if wf else ONE if cols == 1 else el("tab", [lab("f"), ONE])
    chk.same_value("R12.input", nm + ": frequencies", a["freq_array"], sa, fr, s2, where=w)
    chk.same_value("R12.input", nm + ": weights", a["weights_array"], sa, wt if cols == 0 else arr_of(["f"], wt), s2, where=w)
