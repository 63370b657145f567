"""peak maps: pixel-wise peak fitting of a Faraday cube, and the files written"""
from .common import *
import os

from .cli import Cli
from .fs import FS, cube_header
from .p15 import file_, keys, plane
from .tools import Calls, bound
from sa.rint import loop_table, u01

PF = "RMtools_3D.RMpeakfit_3D."
MP = "RMutils.util_RM.measure_FDF_parms"
MEAS = ("dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "indxPeakPIfit", "peakFDFimagFit", "peakFDFrealFit", "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg")
MORE = ("Ifreq0", "lam0Sq_m2", "freq0_Hz", "fwhmRMSF", "dFDFth", "min_freq", "max_freq", "N_channels", "median_channel_width", "fracPol")


A = lambda I, st, n, l, **k: I.input_array(st, n, l, **k)


def lens(seed, t):
    return dict(f=2 + t % 3, d=3 + t % 2, y=1 + t % 3, x=1 + (t // 3) % 3)


def vals(m, name, idx):
    u = lambda *a: u01(m.seed, "pk", name, *a)
    if name == "x2":  # monotonic, either way
        i = float(idx[0])
        return 5 + (1 if u01(m.seed, "dir") < 0.5 else -1) * (i + 0.5 * u(i)) * 0.4
    if name == "lam0":  # within the band
        k = int(u() * (m.lens["f"] - 1))
        a, b = vals(m, "x2", (k,)), vals(m, "x2", (k + 1,))
        return a + (b - a) * u(1)
    return None


K = dict(lens=lens, vals=vals)


def run(chk):
    T.FINITE.update(("x2",))
    w_ = chk.where(PF + "pixelwise_peak_fitting")
    chk.guarded("R26.maps", "pixelwise_peak_fitting", lambda: maps(chk, w_), w_)
    ws, wm = chk.where(PF + "save_maps"), chk.where(PF + "main")
    for axes in AXES:
        for b in (True, False):
            chk.guarded("R26.files", "save_maps", lambda: files(chk, axes, b, ws), ws)
    for g in ({}, {"all_products": TRUE}, {"peak_only": TRUE}, {"fitsI": string("I.fits")}, {"noiseFile": string("n.txt"), "weightType": string("variance")}):
        chk.guarded("R26.cli", "main", lambda: cli(chk, g, wm), wm)
    return dict(floor=10, explanation="The value-numbering interpreter runs pixelwise_peak_fitting, the command line of rmtools_peakfitcube (argparse and the FITS layer are modelled) and rmsynth3d's peak maps on symbolic cubes for the combinations of noise, Stokes I and model inputs. The term of every map pixel is compared with the term of the 1D peak measurement of that pixel (kept as an uninterpreted function of spectrum, grid, beam, wavelengths, reference and noise), and names, units and axes of the files with the documented ones.")


ARGS = ("FDF", "phiArr", "fwhmRMSF", "dFDF", "lamSqArr_m2", "lam0Sq", "snrDoBiasCorrect")


def meas(I, a, st):
    ts = [I.term(a.get(n, NONE), st) for n in ARGS]
    return {k: fn("meas:" + k, *ts, real=True) for k in MEAS}


def fails(I, a, st):
    """the fit of a spectrum may fail; the pixel is then blanked"""
    return T.boolatom(fn("b:fails", *[I.term(a.get(n, NONE), st) for n in ARGS], raw=True))


def maps(chk, w_):
    for noise, weight in ((None, "uniform"), ("n", "uniform"), ("n", "variance")):
        for cube in (False, True):
            for l0 in (sym("lam0", pos=True), ZERO):
                if chk.tier == "quick" and (l0 is ZERO) == (cube or noise is None):
                    continue
                nm = "%s%s%s" % ("no noise" if noise is None else "noise, %s weights" % weight, ", Stokes I" if cube else "", "" if l0 is not ZERO else ", reference wavelength 0")
                chk.guarded("R26.maps", nm, lambda: one(chk, w_, nm, noise, weight, cube, l0), w_)


def one(chk, w_, nm, noise, weight, cube, l0):
    def fit(I, args, kw, st, node):
        a = bound(I, MP, args, kw)
        d = meas(I, a, st)
        I.may_raise(st, fails(I, a, st), "ValueError")
        return I.alloc(st, Dct({string(k).key: (string(k), e) for k, e in d.items()}))

    def build(I, st):
        a = dict(FDF=I.input_array(st, "fdf", ["d", "y", "x"], real=False), phiArr=I.input_array(st, "phi", ["d"]), fwhmRMSF=I.input_array(st, "fwhm", ["y", "x"], pos=True),
                 lamSqArr_m2=I.input_array(st, "x2", ["f"], pos=True), lam0Sq=l0, product_list=I.alloc(st, Lst([string(k) for k in MEAS[:2] + MORE])), weightType=string(weight))
        if noise:
            a["noiseArr"] = I.input_array(st, "noise", ["f"])
        if cube:
            a["stokesIcube"] = I.input_array(st, "Icube", ["f", "y", "x"])
        return [], a
    v, st, I = value(chk, "R26.maps", nm, PF + "pixelwise_peak_fitting", build, hooks={MP: fit})
    J = chk.interp()
    s = J.new_state()
    f2 = lambda: J.input_array(s, "x2", ["f"], pos=True)
    r, s = J.run("specs.tools.peak_axis", [f2(), sym("c_light", pos=True), l0], {}, s)
    freq, f0 = r.items
    if cube:
        I0, s = J.run("specs.tools.interpolate", [freq, J.input_array(s, "Icube", ["f", "y", "x"]), f0], {}, s)
        o = s.heap[I0.id]
        i0 = subst(o.expr, {o.axes[0].label: lab("y"), o.axes[1].label: lab("x")})
    else:
        i0 = num(1)
    dF = NONE
    if noise:
        t, s = J.run("specs.tools.peak_noise", [J.input_array(s, "noise", ["f"]), string(weight)], {}, s)
        dF = mul(T.absv(i0), J.scalar(t, s))
    a = dict(FDF=J.alloc(s, Arr((ax("d"),), el("fdf", [lab("d"), lab("y"), lab("x")], real=False))), phiArr=J.input_array(s, "phi", ["d"]), fwhmRMSF=el("fwhm", [lab("y"), lab("x")], pos=True), dFDF=dF, lamSqArr_m2=f2(), lam0Sq=l0, snrDoBiasCorrect=num(5))
    d = meas(J, a, s)
    bad = fails(J, a, s)
    st_, s = J.run("specs.tools.peak_freqs", [freq], {}, s)
    lo, hi, n, w = st_.items
    want = dict({k: d[k] for k in MEAS[:2]}, Ifreq0=i0, lam0Sq_m2=l0, freq0_Hz=J.scalar(f0, s), fwhmRMSF=a["fwhmRMSF"], dFDFth=dF if noise else T.NAN, min_freq=J.scalar(lo, s), max_freq=J.scalar(hi, s), N_channels=J.scalar(n, s), median_channel_width=J.scalar(w, s), fracPol=div(d["ampPeakPIfit"], i0))
    ent = {T.str_const(k): x for k, x in st.heap[v.id].ent.values()}
    chk.holds("R26.maps", nm + ": the maps are the requested products", set(ent) == set(want), "maps %s" % sorted(set(ent) ^ set(want)), w_)
    for k, e in want.items():
        chk.same_value("R26.maps", "%s: %s" % (nm, k), ent[k], st, J.alloc(s, Arr((ax("y"), ax("x")), ite(bad, T.NAN, e))), s, where=w_, loops=loop_table(I, J), **K)


ALL = MEAS + MORE
FLUX = ("dFDFcorMAD", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "peakFDFimagFit", "peakFDFrealFit", "Ifreq0", "dFDFth")
UNIT = {"phiPeakPIfit_rm2": "rad/m^2", "dPhiPeakPIfit_rm2": "rad/m^2", "polAngleFit_deg": "deg", "dPolAngleFit_deg": "deg", "polAngle0Fit_deg": "deg", "dPolAngle0Fit_deg": "deg", "lam0Sq_m2": "m^2", "freq0_Hz": "Hz", "fwhmRMSF": "rad/m^2", "min_freq": "Hz", "max_freq": "Hz", "median_channel_width": "Hz"}
AXES = ([("RA---SIN", "x"), ("DEC--SIN", "y"), ("FDEP", "k")], [("RA---SIN", "x"), ("DEC--SIN", "y"), ("STOKES", None), ("FDEP", "k")])


def files(chk, axes, bunit, w_):
    nm = "%d axes%s" % (len(axes), "" if bunit else ", no BUNIT")
    fs = FS()
    I = chk.interp(hooks=fs.hooks())
    st = I.new_state()
    hd = cube_header(axes)
    if not bunit:
        del hd["BUNIT"]
    h = fs.header(I, st, hd)
    maps_ = I.alloc(st, Dct({string(n).key: (string(n), I.alloc(st, arr_of(["y", "x"], el("map:" + n, [lab("y"), lab("x")])))) for n in ALL}))
    _, st = I.run(PF + "save_maps", [maps_, string("out/field1_"), h], {}, st)
    chk.absorb(I)
    keys(chk, "R26.files", nm, I, w_)
    for n in ALL:
        x = file_(chk, "R26.files", nm, fs, "out/field1_%s.fits" % n, 1, w_)
        if x:
            u = string("Jy/beam" if bunit else "") if n in FLUX else string(UNIT.get(n, ""))
            plane(chk, "R26.files", "%s, %s" % (nm, n), x[0], axes, ["y", "x"], el("map:" + n, [lab("y"), lab("x")]), u, w_, header=hd)
    new = set(fs.files) - {"out/field1_%s.fits" % n for n in ALL}
    chk.holds("R26.files", nm + ": maps of an earlier run are replaced", not fs.fragile, "fails if it exists: %s" % ", ".join(fs.fragile), w_)
    chk.holds("R26.files", nm + ": nothing else is written", not new, ", ".join(sorted(new)), w_)
    e = {k.upper(): v for k, v in hd.items()}
    now = {T.str_const(v[0]): v[1] for v in st.heap[h.id].ent.values()}
    bad = [k for k in e if now.get(k) is not e[k]]
    chk.holds("R26.files", nm + ": the header of the input is not changed", not bad, ", ".join(bad), w_)


def cli(chk, given, w_):
    nm = " ".join("-" + {"all_products": "a", "peak_only": "p", "fitsI": "i", "noiseFile": "n", "weightType": "w"}[k] for k in given) or "no options"
    c = Cli(dict(given, FDF_filename=string("d/FDF_tot_dirty.fits"), freq_file=string("freq.txt"), output_name=string("field1_")))
    calls = Calls()
    two = string("d/FDF_tot_dirty.fits")
    hooks = dict(c.hooks())
    rd = lambda I, st, a: Tup([A(I, st, "FDF", ["k", "y", "x"], real=False), A(I, st, "phi", ["k"]), A(I, st, "fwhm", ["y", "x"]), A(I, st, "x2", ["f"]), sym("lam0", pos=True), fs.header(I, st, cube_header(AXES[0]))])
    fs = FS()
    hooks.update(fs.hooks())
    rf, rc, rn, pf, sv = PF + "read_files", "RMtools_3D.do_RMsynth_3D.readFitsCube", "RMtools_3D.do_RMsynth_3D.readFreqFile", PF + "pixelwise_peak_fitting", PF + "save_maps"
    hooks[rf] = calls.hook(rf, rd)
    hooks[rc] = calls.hook(rc, lambda I, st, a: Tup([fs.header(I, st, cube_header(AXES[0])), A(I, st, "Icube", ["f", "y", "x"])]))
    hooks[rn] = calls.hook(rn, lambda I, st, a: A(I, st, "noise", ["f"], pos=True))
    hooks[pf] = calls.hook(pf, lambda I, st, a: I.alloc(st, Dct({string(n).key: (string(n), A(I, st, "map:" + n, ["y", "x"])) for n in ALL})))
    hooks[sv] = calls.hook(sv, lambda I, st, a: NONE)
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    v, st = I.run(PF + "main", [], {}, st)
    chk.absorb(I)
    keys(chk, "R26.cli", nm, I, w_)
    if v is BOTTOM:
        chk.holds("R26.cli", nm + ": runs", False, "every path exits", w_)
        return
    a, s = calls.one(rf)
    chk.same("R26.cli", nm + ": FDF file", a["FDF_filename"], two, where=w_)
    chk.same("R26.cli", nm + ": frequency file", a["freq_filename"], string("freq.txt"), where=w_)
    a, s = calls.one(pf)
    for par, ls, e in (("FDF", ["k", "y", "x"], el("FDF", [lab("k"), lab("y"), lab("x")], real=False)), ("phiArr", ["k"], el("phi", [lab("k")])), ("fwhmRMSF", ["y", "x"], el("fwhm", [lab("y"), lab("x")])), ("lamSqArr_m2", ["f"], el("x2", [lab("f")]))):
        chk.same_value("R26.cli", "%s: %s" % (nm, par), a[par], s, arr_of(ls, e), s, where=w_)
    chk.same("R26.cli", nm + ": reference wavelength", a["lam0Sq"], sym("lam0", pos=True), where=w_)
    for par, opt, ref_, e in (("stokesIcube", "fitsI", rc, arr_of(["f", "y", "x"], el("Icube", [lab("f"), lab("y"), lab("x")]))), ("noiseArr", "noiseFile", rn, arr_of(["f"], el("noise", [lab("f")], pos=True)))):
        if opt in given:
            chk.same_value("R26.cli", "%s: %s" % (nm, par), a.get(par, NONE), s, e, s, where=w_)
            chk.same("R26.cli", "%s: file of %s" % (nm, par), calls.one(ref_)[0]["file"], given[opt], where=w_)
        else:
            chk.same("R26.cli", "%s: no %s" % (nm, par), a.get(par, NONE), NONE, where=w_)
    chk.same("R26.cli", nm + ": weights", a.get("weightType", string("uniform")), given.get("weightType", string("uniform")), where=w_)
    prods = [T.str_const(x) for x in s.heap[a["product_list"].id].items]
    bad = [p for p in prods if p not in ALL]
    chk.holds("R26.cli", nm + ": only products that are computed are asked for", not bad, ", ".join(bad), w_)
    if "all_products" in given:
        miss = [p for p in ALL if p not in prods]
        chk.holds("R26.cli", nm + ": every product is asked for", not miss, ", ".join(miss), w_)
    a, s = calls.one(sv)
    chk.holds("R26.cli", nm + ": the maps of the fit are saved", isinstance(a["map_dict"], Ref) and len(s.heap[a["map_dict"].id].ent) == len(ALL), "", w_)
    p = T.str_const(I.term(a["prefix_path"], s))
    chk.holds("R26.cli", nm + ": output name", p is not None and os.path.normpath(p) == "field1_", "it is %s" % p, w_)
