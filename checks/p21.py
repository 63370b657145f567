"""command-line options: each documented option reaches exactly the parameter it documents, and defaults are the documented ones"""
import itertools

from .common import *
from .cli import Cli
from sa.interp import Func, StarArg
from sa.rint import u01

U, M = "RMutils.util_RM.", "RMutils.util_misc."
A = lambda I, st, n, l, **k: I.input_array(st, n, l, **k)
Y = lambda n: lambda I, st, a: sym(n)


class Seen:
    """recorders: functions replaced by their symbolic result; the arguments of every call are bound as Python binds them"""

    def __init__(self, recs):
        self.recs, self.log = recs, []

    def hooks(self, repo):
        h = {}
        for q, r in self.recs.items():
            x = repo.resolve(q)
            h[x[1].name + "." + x[2].name if x is not None else q] = self.mk(q, r)
        return h

    def mk(self, q, r):
        def hook(I, args, kw, st, node):
            x = I.repo.resolve(q)
            if x is not None:
                if any(isinstance(a, StarArg) for a in args) or "**" in kw:
                    raise Abort("arguments of %s are not determined" % q)
                f = Func(x[2], x[1], q)
                n = len(I.issues)
                a = I.bind(f, args, kw, st, node)
                bad = [i for i in I.issues[n:]]
                if bad:
                    self.log.append((q, None, st.guard, str(bad[0])))
                    return sym("unbound")
            else:
                a = dict({i: v for i, v in enumerate(args)}, **kw)
            val = {k: (v if isinstance(v, (Ref, Tup)) else I.term(v, st)) for k, v in a.items()}
            self.log.append((q, val, st.guard, st.copy()))
            return r(I, st, a)
        return hook


class Flags(Cli):
    free = False
    """options typed by flag; the text of a value is converted by the type the option declares"""

    def __init__(self, flags, pos, kinds):
        Cli.__init__(self, {})
        self.flags, self.pos, self.kinds = flags, pos, kinds
        self.bad, self.texts = [], {}

    def hooks(self):
        h = Cli.hooks(self)
        inner = h[".parse_args"]

        def parse(I, args, kw, st, node):
            if not self.mine(args[0], st):
                return NotImplemented
            for d, os_ in self.opts.items():
                for o in os_:
                    if o["positional"]:
                        if d in self.pos:
                            v = self.pos[d]
                            self.given[d] = [self.text(I, o, x, st) for x in v] if isinstance(v, list) else self.text(I, o, v, st)
                        continue
                    hit = [n for n in o["names"] if n in self.flags]
                    if hit:
                        self.given[d] = self.convert(I, o, hit[0], st)
                        self.used.add(hit[0])
            left = [f for f in self.flags if f not in self.used]
            miss = [d for d in self.pos if d not in self.opts]
            if left or miss:
                self.bad.append("the command line does not know %s" % ", ".join(left + miss))
                I.do_raise(st, "SystemExit", node)
                return BOTTOM
            return inner(I, args, kw, st, node)
        num_ = lambda i: lambda I, a, k, st, n: self.texts[a[0].key][i] if a and isinstance(a[0], E) and a[0].key in self.texts else NotImplemented
        h[".parse_args"] = parse
        h["builtins.float"], h["builtins.int"] = num_(0), num_(1)
        return h

    def text(self, I, o, v, st):
        """v: str (text given) or ("f"|"i", name): the text of a number"""
        t = o["type"]
        name = t.name.split(".")[-1] if isinstance(t, Ext) else None
        if isinstance(v, str):
            if name in (None, "str"):
                return string(v)
            raise Abort("text option with type %s" % name)
        k, n = v
        if isinstance(n, (int, float)) and not isinstance(n, bool):
            return {"float": num(n), "int": num(n)}.get(name, string(str(n)))
        if name == "float":
            return el("int", [sym(n)]) if k == "i" else sym(n)
        if name == "int":
            return el("int", [sym(n)])
        if name in (None, "str"):
            t = el("text", [sym(n)])
            self.texts[t.key] = sym(n), el("int", [sym(n)])
            return t
        raise Abort("option with type %s" % name)

    def convert(self, I, o, flag, st):
        v = self.flags[flag]
        act = o["action"]
        if act == "store_true":
            r = TRUE
        elif act == "store_false":
            r = FALSE
        elif act == "store_const":
            r = o["const"]
        elif act != "store":
            raise Abort("option with action %s" % act)
        elif v is True:
            self.bad.append("%s needs a value" % flag)
            return NONE
        elif isinstance(v, list):
            return [self.text(I, o, x, st) for x in v]
        else:
            return self.text(I, o, v, st)
        if v is not True:
            self.bad.append("%s takes no value" % flag)
        return r


def F(n):
    return ("f", "opt " + n)


def N(n):
    return ("i", n if isinstance(n, int) else "opt " + n)


class Got:
    """what the user gave, as the values the documented option denotes"""

    def __init__(self, flags):
        self.flags = flags

    def __call__(self, flag, default=NONE):
        v = self.flags.get(flag)
        if v is None:
            return default if not isinstance(default, (int, float)) or isinstance(default, bool) else num(default)
        if v is True:
            return TRUE
        return val(v)

    def on(self, flag):
        return TRUE if flag in self.flags else FALSE

    def off(self, flag):
        return FALSE if flag in self.flags else TRUE

    def has(self, flag):
        return flag in self.flags


def val(v):
    if isinstance(v, str):
        return string(v)
    k, n = v
    return num(n) if isinstance(n, (int, float)) else el("int", [sym(n)]) if k == "i" else sym(n)


def vals(m, name, idx):
    """zero is among the values tried for every option"""
    if name.startswith("opt ") or name == "int":
        return 0.0 if u01(m.seed, "zero", name) < 0.3 else None
    return None


# ------------------------------------------------------------------ the documented command lines
D1 = dict(dataFile=["my.dir/s.v2.dat"])
RF = "RMtools_1D.do_RMsynth_1D."
RC = "RMtools_1D.do_RMclean_1D."
R3 = "RMtools_3D.do_RMsynth_3D."
C3 = "RMtools_3D.do_RMclean_3D."
QF = "RMtools_1D.do_QUfit_1D_mnest."
FI = "RMtools_3D.do_fitIcube."
PK = "RMtools_3D.RMpeakfit_3D."
RS = "RMtools_3D.rescale_I_model_3D."
BW = "RMtools_1D.rmtools_bwdepol."
BP = "RMtools_1D.rmtools_bwpredict."
CR = "RMtools_1D.calculate_RMSF."
FF = "RMtools_1D.do_RMsynth_1D_fromFITS."
MA = lambda I, st, a: Tup([sym("mDict"), sym("aDict")])


def rmsynth1d(g):
    bits = num(64) if g.has("-b") else num(32)
    e = {RF + "readFile": [dict(dataFile=string("my.dir/s.v2.dat"), nBits=bits)],
         RF + "run_rmsynth": [dict(data=sym("data"), polyOrd=g("-o", 2), phiMax_radm2=g("-l"), dPhi_radm2=g("-d"), nSamples=g("-s", 10), weightType=g("-w", string("variance")), fitRMSF=g.on("-t"), noStokesI=g.on("-i"), phiNoise_radm2=num(10 ** 6), nBits=bits, showPlots=g.on("-p"), debug=g.on("-D"), verbose=g.on("-v"), units=g("-U", string("Jy/beam")), prefixOut=string("my.dir/s.v2"), saveFigures=g.on("-S"), fit_function=g("-f", string("log")), super_resolution=g.on("-r"), modStokesI=NONE)],
         RF + "saveOutput": [dict(outdict=sym("mDict"), arrdict=sym("aDict"), prefixOut=string("my.dir/s.v2"))] if g.has("-S") else []}
    return e


def rmclean1d(g):
    return {RC + "readFiles": [dict(fdfFile=string("my.dir/s.v2_FDFdirty.dat"), rmsfFile=string("my.dir/s.v2_RMSF.dat"), weightFile=string("my.dir/s.v2_weight.dat"), rmSynthFile=string("my.dir/s.v2_RMsynth.json"))],
            RC + "run_rmclean": [dict(mDict=sym("mDict"), aDict=sym("aDict"), cutoff=g("-c", -3), maxIter=g("-n", 1000), gain=g("-g", 0.1), window=g("-w"), showPlots=g.on("-p"), verbose=g.on("-v"), saveFigures=g.on("-S"), prefixOut=string("my.dir/s.v2"))],
            RC + "saveOutput": [dict(mDict_cl=sym("mDict_cl"), aDict_cl=sym("aDict_cl"), prefixOut=string("my.dir/s.v2"))] if g.has("-S") else []}


def rmsynth3d(g):
    return {R3 + "readFitsCube": None, R3 + "readFreqFile": None,
            R3 + "run_rmsynth": [dict(dataQ=sym("cube dir/q.fits"), dataU=sym("cube dir/u.fits"), freqArr_Hz=sym("list freqs.txt"), dataI=sym("cube i.fits") if g.has("-i") else NONE, rmsArr=sym("list rms.txt") if g.has("-n") else NONE, phiMax_radm2=g("-l"), dPhi_radm2=g("-d"), nSamples=g("-s", 5), weightType=g("-w", string("uniform")), fitRMSF=g.on("-t"), nBits=num(32), verbose=g.on("-v"), not_rmsf=g.on("-R"), super_resolution=g.on("-r"))],
            R3 + "writefits": [dict(dataArr=sym("dataArr"), headtemplate=sym("header dir/q.fits"), prefixOut=g("-o", string("")), outDir=string("dir"), write_seperate_FDF=g.off("-f"), not_rmsf=g.on("-R"), nBits=num(32))]}


def rmclean3d(g):
    par = g.has("--ncores") or g.has("--chunk") or g.has("--mpi")
    return {C3 + "run_rmclean": [dict(fitsFDF=string("dir/fdf.fits"), fitsRMSF=string("dir/rmsf.fits"), cutoff=g("-c", 1), maxIter=g("-n", 1000), gain=g("-g", 0.1), window=g("-w", T.NAN), nBits=num(32), verbose=g.on("-v"), pool=sym("pool") if par else NONE, chunksize=g("--chunk") if g.has("--ncores") else ANY)],
            "schwimmbad.choose_pool": [dict(mpi=g.on("--mpi"), processes=g("--ncores", 1))] if par else [],
            C3 + "writefits": [dict(cleanFDF=sym("clean"), ccArr=sym("cc"), iterCountArr=sym("iter"), residFDF=sym("resid"), headtemp=sym("head"), prefixOut=g("-o", string("")), outDir=string("dir"), write_separate_FDF=g.off("-f"))]}


def qufit(g):
    return {QF + "readFile": [dict(dataFile=string("my.dir/s.v2.dat"), nBits=num(32))],
            QF + "run_qufit": [dict(data=sym("data"), modelNum=g("-m", 1), outDir=ANY, polyOrd=g("-o", 2), nBits=num(32), noStokesI=g.on("-i"), showPlots=g.on("-p"), debug=g.on("-d"), verbose=g.on("-v"), sampler=g("--sampler", string("dynesty")), fit_function=g("-f", string("log")), ncores=g("--ncores", 1), nlive=g("--nlive", 300), prefixOut=string("my.dir/s.v2"))]}


def fiticube(g):
    return {FI + "open_datacube": [dict(fitsI=string("dir/i.fits"))],
            FI + "get_frequencies": [dict(datacube=sym("cube"), header=sym("head"), freqFile=string("freqs.txt"))] if g.has("-freqFile") else [],
            FI + "get_freq_array": [] if g.has("-freqFile") else [{0: string("dir/i.fits")}],
            FI + "make_model_I": [dict(datacube=sym("cube"), header=sym("head"), freqArr_Hz=sym("file frequencies") if g.has("-freqFile") else sym("header frequencies"), polyOrd=g("-p", 2), prefixOut=g("-o", string("")), outDir=g("-odir", string("dir")), nBits=num(32), threshold=g("-t", -3), apply_mask=g.on("-m"), num_cores=g("-n", 1), chunk_size=g("-c", 1), verbose=g.on("-v"), fit_function=g("-f", string("log")))]}


def peakfit(g):
    return {PK + "read_files": [{0: string("dir/fdf.fits"), 1: string("freqs.txt")}],
            PK + "pixelwise_peak_fitting": [dict(FDF=Is("FDF", "k", "y", "x", real=False), phiArr=Is("phi", "k"), fwhmRMSF=Is("fwhm", "y", "x"), lamSqArr_m2=Is("l2", "f"), lam0Sq=sym("lam0"), noiseArr=sym("list rms.txt") if g.has("-n") else NONE, stokesIcube=sym("cube i.fits") if g.has("-i") else NONE, weightType=g("-w", string("uniform")))],
            PK + "save_maps": [dict(map_dict=sym("maps"), prefix_path=string("./out"), FDFheader=sym("head"))]}


def rescale(g):
    f = Const(sym("opt freq0")) if g.has("-f") else By("rescale_fdf", lambda I, st: [A(I, st, "oldf", ["y", "x"]), sym("LAMSQ0", pos=True)]) if g.has("-l") else By("rescale_default", lambda I, st: [A(I, st, "oldf", ["y", "x"])])
    return {RS + "read_data": [{0: string("dir/i")}],
            RS + "rescale_I_model_3D": [dict(covar_map=Is("covar", "p", "q", "y", "x"), old_reffreq_map=Is("oldf", "y", "x"), new_freq_map=f, coeffs=Is("coeffs", "p", "y", "x"), fit_function=string("log"), num_cores=g("-n", 1))],
            RS + "write_new_parameters": [dict(new_freq_map=sym("newf"), new_coeffs=sym("newc"), new_errors=sym("newe"), out_basename=g("-o", string("dir/i")), overwrite=g.on("-w"))]}


def bwdepol(g):
    return {"numpy.loadtxt": [{0: string("my.dir/s.v2.dat"), "unpack": TRUE}],
            BW + "run_adjoint_rmsynth": [dict(data=Is("data", "col", "f"), polyOrd=g("-o", 2), phiMax_radm2=g("-l"), dPhi_radm2=g("-d"), nSamples=g("-s", 10), weightType=g("-w", string("variance")), fitRMSF=g.off("-t"), noStokesI=g.on("-i"), showPlots=g.on("-p"), debug=g.on("-D"), verbose=g.on("-v"), units=g("-U", string("Jy/beam")))],
            BW + "saveOutput": [dict(outdict=sym("mDict"), arrdict=sym("aDict"), prefixOut=string("my.dir/s.v2"))] if g.has("-S") else []}


def bwpredict(g):
    return {"numpy.loadtxt": [{0: string("my.dir/s.v2.dat"), "unpack": TRUE}],
            BP + "bwdepol_compute_predictions": [dict(freqArr_Hz=Is("data", "f"), widths_Hz=NONE, phiMax_radm2=g("-l"), dPhi_radm2=g("-d"))],
            "matplotlib.pyplot.savefig": [{0: string("p.pdf")}] if g.has("-f") else [],
            "matplotlib.pyplot.show": None if g.has("-f") else [{}]}


def calcrmsf(g):
    return {CR + "determine_RMSF_parameters": [dict(freq_array=Is("chans", "f"), weights_array=Const(ONE), phi_max=g("-m"), dphi=g("-d"), plotfile=g("-s"), plotname=g("-n"), super_resolution=g.on("-r"))]}


def calcrmsf_gen(g):
    lo, hi, w = [sym("opt " + n) for n in ("fmin", "fmax", "width")]
    return {CR + "determine_RMSF_parameters": [dict(freq_array=Grid(lo, hi, w), weights_array=Const(ONE), phi_max=g("-m"), dphi=g("-d"), plotfile=g("-s"), plotname=g("-n"), super_resolution=g.on("-r"))]}


def fromfits(g):
    bits = num(64) if g.has("-b") else num(32)
    return {FF + "get_data_Q_U": None, FF + "get_freq_array": [{0: string("dir/q.fits")}],
            FF + "run_rmsynth": [dict(polyOrd=g("-o", 2), phiMax_radm2=g("-l"), dPhi_radm2=g("-d"), nSamples=g("-s", 10), weightType=g("-w", string("variance")), fitRMSF=g.on("-t"), noStokesI=g.on("-i"), nBits=bits, showPlots=g.on("-p"), debug=g.on("-D"), verbose=g.on("-v"), units=g("-U", string("K")), prefixOut=string("dir/q") if g.has("-S") or g.has("-p") else ANY, saveFigures=g.on("-S"), super_resolution=g.on("-r"))],
            FF + "saveOutput": [{0: sym("mDict"), 1: sym("aDict"), 2: string("dir/q")}] if g.has("-S") else []}


class Any:
    def check(self, chk, name, v, st, w):
        pass


ANY = Any()


class Is(Any):
    """the array produced by a reader, unchanged"""

    def __init__(self, n, *labels, **k):
        self.n, self.labels, self.k = n, list(labels), k

    def check(self, chk, name, v, st, w):
        o = st.heap[v.id] if isinstance(v, Ref) else None
        if not isinstance(o, Arr):
            chk.holds("R21.arg", name, False, "expected the array %s read from the file, found %s" % (self.n, show(v)), w)
            return
        I2 = chk.interp()
        st2 = I2.new_state()
        chk.same_value("R21.arg", name, v, st, A(I2, st2, self.n, self.labels, **self.k), st2, where=w)


class Const(Any):
    def __init__(self, e):
        self.e = e

    def check(self, chk, name, v, st, w):
        o = st.heap[v.id] if isinstance(v, Ref) else None
        if not isinstance(o, Arr):
            chk.holds("R21.arg", name, False, "expected an array of %s, found %s" % (show(self.e), show(v)), w)
        else:
            chk.same("R21.arg", name, o.expr, self.e, where=w)


class By(Any):
    """the value of a reference function"""

    def __init__(self, f, mk):
        self.f, self.mk = f, mk

    def check(self, chk, name, v, st, w):
        I2 = chk.interp()
        st2 = I2.new_state()
        r, st2 = I2.run("specs.tools." + self.f, self.mk(I2, st2), {}, st2)
        chk.same_value("R21.arg", name, v, st, r, st2, where=w)


class Grid(Any):
    def __init__(self, lo, hi, w):
        self.q = (lo, hi, w)

    def check(self, chk, name, v, st, w):
        lo, hi, s = self.q
        o = st.heap[v.id] if isinstance(v, Ref) else None
        if not isinstance(o, Arr) or len(o.axes) != 1:
            chk.holds("R21.arg", name, False, "expected the frequencies from the first to the second value in steps of the third, found %s" % show(v), w)
            return
        chk.same("R21.arg", name, o.expr, T.add(lo, T.mul(s, lab(o.axes[0].label))), where=w)
        from sa.npmodel import f_ceil
        chk.same("R21.arg", name + " (length)", o.axes[0].L, f_ceil(T.div(T.sub(hi, lo), s)), where=w)


def cube(I, st, a):
    n = T.str_const(I.term(list(a.values())[0], st))
    return Tup([sym("header " + n), sym("cube " + n)])


def flist(I, st, a):
    return sym("list " + T.str_const(I.term(list(a.values())[0], st)))


def pool(I, st, a):
    return sym("pool")


OPT1 = {"-t": True, "-l": F("phimax"), "-d": F("dphi"), "-s": F("nsamp"), "-w": "uniform", "-f": "linear", "-o": N("ord"), "-i": True, "-b": True, "-p": True, "-v": True, "-S": True, "-D": True, "-U": "K", "-r": True}
TOOLS = {
    "rmsynth1d": dict(q=RF + "main", pos=D1, opt=OPT1, expect=rmsynth1d, alias={"-r": "--super-resolution"},
                      recs={RF + "readFile": Y("data"), RF + "run_rmsynth": MA, RF + "saveOutput": lambda I, st, a: NONE}),
    "rmclean1d": dict(q=RC + "main", pos=D1, expect=rmclean1d, opt={"-c": F("cut"), "-w": F("win"), "-n": N("iter"), "-g": F("gain"), "-p": True, "-v": True, "-S": True},
                      recs={RC + "readFiles": MA, RC + "run_rmclean": lambda I, st, a: Tup([sym("mDict_cl"), sym("aDict_cl")]), RC + "saveOutput": lambda I, st, a: NONE}),
    "rmsynth3d": dict(q=R3 + "main", pos=dict(fitsQ=["dir/q.fits"], fitsU=["dir/u.fits"], freqFile=["freqs.txt"]), expect=rmsynth3d, alias={"-r": "--super-resolution"},
                      opt={"-i": "i.fits", "-n": "rms.txt", "-w": "variance", "-t": True, "-l": F("phimax"), "-d": F("dphi"), "-o": "pre_", "-s": F("nsamp"), "-f": True, "-v": True, "-R": True, "-r": True},
                      recs={R3 + "readFitsCube": cube, R3 + "readFreqFile": flist, R3 + "run_rmsynth": Y("dataArr"), R3 + "writefits": lambda I, st, a: NONE}),
    "rmclean3d": dict(q=C3 + "main", pos=dict(fitsFDF=["dir/fdf.fits"], fitsRMSF=["dir/rmsf.fits"]), expect=rmclean3d, excl=[("--ncores", "--mpi")],
                      opt={"-c": F("cut"), "-w": F("win"), "-n": N("iter"), "-g": F("gain"), "-o": "pre_", "-f": True, "-v": True, "--ncores": N(4), "--chunk": N(7), "--mpi": True},
                      recs={C3 + "run_rmclean": lambda I, st, a: Tup([sym(n) for n in ("clean", "cc", "iter", "resid", "head")]), C3 + "writefits": lambda I, st, a: NONE, "schwimmbad.choose_pool": pool}),
    "qufit": dict(q=QF + "main", pos=D1, expect=qufit,
                  opt={"-m": N("model"), "-f": "linear", "-o": N("ord"), "-i": True, "-p": True, "-d": True, "-v": True, "--sampler": "nestle", "--ncores": N("cores"), "--nlive": N("nlive")},
                  recs={QF + "readFile": Y("data"), QF + "run_qufit": lambda I, st, a: NONE}),
    "fitIcube": dict(q=FI + "main", pos=dict(fitsI=["dir/i.fits"]), expect=fiticube,
                     opt={"-freqFile": "freqs.txt", "-f": "linear", "-p": N("ord"), "-n": N("cores"), "-m": True, "-c": N("chunk"), "-t": F("thresh"), "-o": "pre_", "-odir": "out", "-v": True},
                     recs={FI + "open_datacube": lambda I, st, a: Tup([sym("cube"), sym("head")]), FI + "get_frequencies": Y("file frequencies"), FI + "get_freq_array": Y("header frequencies"), FI + "make_model_I": lambda I, st, a: NONE}),
    "peakfit": dict(q=PK + "main", pos=dict(FDF_filename=["dir/fdf.fits"], freq_file=["freqs.txt"], output_name=["out"]), expect=peakfit, excl=[("-a", "-p")],
                    opt={"-a": True, "-p": True, "-v": True, "-i": "i.fits", "-n": "rms.txt", "-w": "variance"},
                    recs={PK + "read_files": lambda I, st, a: Tup([A(I, st, "FDF", ["k", "y", "x"], real=False), A(I, st, "phi", ["k"]), A(I, st, "fwhm", ["y", "x"]), A(I, st, "l2", ["f"]), sym("lam0"), sym("head")]),
                          PK + "readFitsCube": cube, PK + "readFreqFile": flist, PK + "pixelwise_peak_fitting": Y("maps"), PK + "save_maps": lambda I, st, a: NONE}),
    "bwdepol": dict(q=BW + "main", pos=D1, expect=bwdepol, opt={k: v for k, v in OPT1.items() if k not in ("-f", "-b", "-r")},
                    recs={"numpy.loadtxt": lambda I, st, a: A(I, st, "data", ["col", "f"]), BW + "run_adjoint_rmsynth": MA, BW + "saveOutput": lambda I, st, a: NONE}),
    "bwpredict": dict(q=BP + "main", pos=D1, expect=bwpredict, opt={"-l": F("phimax"), "-d": F("dphi"), "-f": "p.pdf"},
                      recs={"numpy.loadtxt": lambda I, st, a: A(I, st, "data", ["f"]), BP + "bwdepol_compute_predictions": Y("info"), BP + "plot_adjoint_info": lambda I, st, a: NONE, "matplotlib.pyplot.savefig": lambda I, st, a: NONE, "matplotlib.pyplot.show": lambda I, st, a: NONE}),
    "calcRMSF": dict(q=CR + "main", pos=dict(freqFile="freqs.txt"), expect=calcrmsf, opt={"-m": F("phimax"), "-d": F("dphi"), "-s": "p.pdf", "-n": "title", "-r": True}, alias={"-r": "--super-resolution"},
                     recs={CR + "determine_RMSF_parameters": lambda I, st, a: NONE, "numpy.genfromtxt": lambda I, st, a: A(I, st, "chans", ["f"])}),
    "calcRMSF -f": dict(q=CR + "main", pos={}, base={"-f": [F("fmin"), F("fmax"), F("width")]}, expect=calcrmsf_gen, opt={"-m": F("phimax"), "-r": True},
                        recs={CR + "determine_RMSF_parameters": lambda I, st, a: NONE}),
    "rmsynth1dFITS": dict(q=FF + "main", pos=dict(dataFile=["dir/q.fits"], UFile=["dir/u.fits"], xcoords=F("xc"), ycoords=F("yc")), expect=fromfits, opt=dict({k: v for k, v in OPT1.items() if k != "-f"}, **{"-U": "mJy", "-I": "dir/i.fits"}), alias={"-r": "--super-resolution"},
                          recs={FF + "get_data_Q_U": lambda I, st, a: A(I, st, "spec", ["five"], pos=True), FF + "get_freq_array": lambda I, st, a: A(I, st, "freqs", ["five"], pos=True), FF + "run_rmsynth": MA, FF + "saveOutput": lambda I, st, a: NONE, "astropy.io.fits.open": lambda I, st, a: cubefile(I, st)}),
    "rescale": dict(q=RS + "command_line", pos=dict(covar_file="dir/icovariance.fits"), expect=rescale, excl=[("-f", "-l")], opt={"-f": F("freq0"), "-l": "dir/fdf.fits", "-o": "out/pre", "-n": N("cores"), "-w": True},
                    recs={RS + "read_data": lambda I, st, a: Tup([A(I, st, "covar", ["p", "q", "y", "x"]), A(I, st, "oldf", ["y", "x"]), A(I, st, "coeffs", ["p", "y", "x"]), history(I, st)]),
                          RS + "rescale_I_model_3D": lambda I, st, a: Tup([sym(n) for n in ("newf", "newc", "newe")]), RS + "write_new_parameters": lambda I, st, a: NONE, "astropy.io.fits.getheader": lambda I, st, a: lamsq(I, st, a)}),
}


def cubefile(I, st):
    h = I.alloc(st, Dct({string("BUNIT").key: (string("BUNIT"), string("K"))}, None, frozenset(), "header"))
    return I.alloc(st, Lst([I.alloc(st, Ob("hdu", {"header": h, "data": NONE}))]))


def lamsq(I, st, a):
    return I.alloc(st, Dct({string("LAMSQ0").key: (string("LAMSQ0"), sym("LAMSQ0", pos=True))}, None, frozenset(), "header"))


def history(I, st):
    h = I.alloc(st, Lst([string("something else"), string("Fit model is log-polynomial")]))
    return I.alloc(st, Dct({string("HISTORY").key: (string("HISTORY"), h)}, None, frozenset(), "header"))


def scenarios(t, tier):
    opt = t["opt"]
    yield "no options", {}
    for k in opt:
        yield k, {k: opt[k]}
    for k, a in t.get("alias", {}).items():
        yield a, {a: opt[k]}
    bad = [set(x) for x in t.get("excl", [])]
    full = dict(opt)
    for x in t.get("excl", []):
        full.pop(x[-1], None)
    yield "all options", full
    if tier == "thorough":
        for a, b in itertools.combinations(opt, 2):
            if {a, b} not in bad:
                yield a + " " + b, {a: opt[a], b: opt[b]}


MISSING = {"rmsynth1d": ["my.dir/s.v2.dat"], "rmclean1d": ["my.dir/s.v2_FDFdirty.dat", "my.dir/s.v2_RMSF.dat", "my.dir/s.v2_weight.dat", "my.dir/s.v2_RMsynth.json"], "rmsynth3d": ["dir/q.fits", "dir/u.fits"], "rmclean3d": ["dir/fdf.fits", "dir/rmsf.fits"], "qufit": ["my.dir/s.v2.dat"], "fitIcube": ["dir/i.fits"], "peakfit": ["dir/fdf.fits", "freqs.txt"], "bwdepol": ["my.dir/s.v2.dat"], "rescale": ["dir/icovariance.fits"]}


def called(s, q):
    """recorded calls of q; a call under a condition the model cannot determine leaves the question open"""
    r = [x for x in s.log if q in (None, x[0]) and x[2] is not FALSE]
    for x in r:
        if x[2].opq:
            raise Abort("%s is called under a condition that is not determined: %s" % (x[0], show(x[2])[:300]))
    return r


def missing(chk, name, t, file, w):
    """without one of its input files the tool computes and writes nothing"""
    s, f = Seen(t["recs"]), Flags(dict(t["opt"]) if name in ("rmsynth1d", "rmclean1d", "bwdepol") else {}, t["pos"], None)
    hooks = dict(s.hooks(chk.repo), **f.hooks())
    ex = lambda I, a, k, st, n: FALSE if T.str_const(I.term(a[0], st)) == file else TRUE
    for n in ("exists", "isfile"):
        hooks["os.path." + n] = ex
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    I.run(t["q"], [], {}, st)
    chk.absorb(I)
    done = [x for x in called(s, None) if not x[0].split(".")[-1].startswith(("read", "open", "get"))]
    chk.holds("R21.missing", "%s without %s" % (name, file), not done, "%s is called although %s does not exist" % (done[0][0] if done else "", file), w)


def run(chk):
    n = 0
    T.set_length("five", num(5))
    for name, t in TOOLS.items():
        if chk.repo.resolve(t["q"]) is None:
            chk.undecided("R21.tool", name, "no entry point %s" % t["q"])
            continue
        w = chk.where(t["q"])
        for sc, flags in scenarios(t, chk.tier):
            n += 1
            chk.guarded("R21.arg", "%s %s" % (name, sc), lambda: one(chk, name, t, sc, flags, w), w)
        for file in MISSING.get(name, []):
            chk.guarded("R21.missing", "%s without %s" % (name, file), lambda: missing(chk, name, t, file, w), w)
    return dict(floor=2000, explanation="argparse is modelled (names, destinations, types, actions, defaults) and every command-line entry point is analysed by the value-numbering interpreter for the documented options: none, each alone, all together (thorough: every pair). Readers, algorithm and writers are recorders; each bound argument, including the parameters left to their defaults, is compared as a term with the value the option documents.")


def one(chk, name, t, sc, flags, w):
    s = Seen(t["recs"])
    flags = dict(t.get("base", {}), **flags)
    f = Flags(flags, t["pos"], None)
    hooks = dict(s.hooks(chk.repo), **f.hooks())
    hooks.setdefault("os.path.exists", lambda I, a, k, st, n: TRUE)
    hooks.setdefault("os.path.isfile", lambda I, a, k, st, n: TRUE)
    hooks.setdefault(".is_master", lambda I, a, k, st, n: TRUE)
    hooks.setdefault("builtins.input", lambda I, a, k, st, n: string(""))
    I = chk.interp(hooks=hooks)
    st = I.new_state()
    I.run(t["q"], [], {}, st)
    chk.absorb(I)
    head = "%s %s" % (name, sc)
    for b in f.bad:
        chk.holds("R21.option", head, False, b, w)
    if f.bad:
        return
    g = Got({k2: v for k, v in flags.items() for k2 in {k, {b: a for a, b in t.get("alias", {}).items()}.get(k, k)}})
    exp = t["expect"](g)
    for q, calls in exp.items():
        if calls is None:
            continue
        got = called(s, q)
        for x in got:
            if x[1] is None:
                chk.holds("R21.call", "%s: %s" % (head, q.split(".")[-1]), False, x[3], w)
        got = [x for x in got if x[1] is not None]
        chk.holds("R21.call", "%s: %s" % (head, q.split(".")[-1]), len(got) == len(calls), "%s is called %d times, documented: %d" % (q, len(got), len(calls)), w)
        for e, x in zip(calls, got):
            chk.holds("R21.call", "%s: %s unconditionally" % (head, q.split(".")[-1]), x[2] is TRUE, "called only if %s" % show(x[2]), w)
            a = x[1]
            pos = list(a.values())
            for p, v in e.items():
                if v is ANY:
                    continue
                k = "%s: %s(%s)" % (head, q.split(".")[-1], p)
                h = a.get(p)
                if h is None and isinstance(p, int) and p < len(pos):
                    h = pos[p]
                if h is None:
                    raise Abort("%s has no parameter %s" % (q, p))
                if isinstance(v, Any):
                    v.check(chk, k, h, x[3], w)
                else:
                    chk.same("R21.arg", k, x and (h if isinstance(h, E) else I.term(h, x[3])), v, where=w, vals=vals)
