"""inputs are left as they were: every entry call of the other checks, with the heap before and after it"""
import ast
import importlib

from .common import *
from .tools import U, M
from sa import verdict
from sa.interp import Interp, Lst, Dct, Ob, Arr, Tup, Phi, Ref, MapL


class Quiet(verdict.Check):
    """runs the analyses of another check without its comparisons"""

    def same(self, *a, **k):
        pass

    same_value = same_arr = same

    def record(self, *a, **k):
        pass


def reach(v, heap, path, seen):
    """(path, heap id) of everything a value refers to"""
    if isinstance(v, Phi):
        reach(v.a, heap, path, seen)
        reach(v.b, heap, path, seen)
    elif isinstance(v, Tup):
        for i, x in enumerate(v.items):
            reach(x, heap, "%s%s" % (path, "." + v.names[i] if v.names else "[%d]" % i), seen)
    elif isinstance(v, Ref) and v.id not in seen and v.id in heap:
        seen[v.id] = path
        o = heap[v.id]
        if isinstance(o, Lst):
            for i, x in enumerate(o.items):
                reach(x, heap, "%s[%d]" % (path, i), seen)
        elif isinstance(o, Dct):
            for k, x in o.ent.values():
                reach(x, heap, "%s[%s]" % (path, show(k, 20)), seen)
        elif isinstance(o, Ob):
            for k, x in o.attrs.items():
                reach(x, heap, "%s.%s" % (path, k), seen)
        elif isinstance(o, MapL):
            reach(o.elem, heap, path + "[]", seen)


PUBLIC = {
    U + n for n in ("do_rmsynth_planes", "get_rmsf_planes", "do_rmclean_hogbom", "measure_FDF_parms", "measure_qu_complexity", "measure_fdf_complexity", "calc_sigma_add", "cdf_percentile", "fits_make_lin_axis", "extrap")} | {
    M + n for n in ("fit_StokesI_model", "calculate_StokesI_model", "renormalize_StokesI_model", "create_frac_spectra", "fit_spec_poly5", "poly5", "powerlaw_poly5", "MAD", "nanmean", "nanmedian", "calc_mom2_FDF", "calc_parabola_vertex", "interp_images", "create_IQU_spectra_RMthin", "create_IQU_spectra_burn", "create_IQU_spectra_diff",
                     "create_pqu_resid_RMthin", "create_pqu_spectra_RMthin", "create_pqu_spectra_burn", "create_pqu_spectra_diff")} | {
    "RMtools_1D." + n for n in ("do_RMsynth_1D.run_rmsynth", "do_RMclean_1D.run_rmclean", "calculate_RMSF.determine_RMSF_parameters", "clean_model.calculate_QU_model", "clean_model.save_model", "do_QUfit_1D_mnest.chisq_model", "rmtools_bwpredict.bwdepol_compute_predictions")} | {
    "RMtools_1D.models_ns.m%s.model" % n for n in ("1", "2", "3", "4", "5", "6", "7", "11", "12", "111")} | {
    "RMtools_1D.rmtools_bwdepol." + n for n in ("adjoint_theory", "analytical_chan_pol", "bwdepol_get_rmsf_planes", "bwdepol_measure_FDF_parms", "bwdepol_plot_RMSF_ax", "bwdepol_plot_rmsf_fdf_fig", "bwdepol_simulation", "do_adjoint_rmsynth_planes", "estimate_channel_bandwidth", "plot_adjoint_info", "rotation_integral_limit", "rotation_operator", "run_adjoint_rmsynth")} | {
    "RMtools_3D." + n for n in ("do_RMsynth_3D.run_rmsynth", "do_RMsynth_3D.writefits", "do_RMsynth_3D.create_peak_maps", "do_RMsynth_3D.find_freq_axis", "do_RMclean_3D.writefits", "do_RMclean_3D.find_axes", "RMpeakfit_3D.pixelwise_peak_fitting", "RMpeakfit_3D.save_maps", "RMpeakfit_3D.find_axes", "do_fitIcube.cube_noise", "do_fitIcube.make_model_I",
                               "do_fitIcube.fit_spectra_I", "do_fitIcube.get_frequencies", "rescale_I_model_3D.rescale_I_model_3D", "rescale_I_model_3D.rescale_I_pixel", "rescale_I_model_3D.write_new_parameters")} | {
    "RMutils.util_plotTk." + n for n in ("plot_I_vs_nu_ax", "plot_Ipqu_spectra_fig", "plot_RMSF_ax", "plot_dirtyFDF_ax", "plot_pqu_vs_lamsq_ax", "plot_psi_vs_lamsq_ax", "plot_q_vs_u_ax", "plot_rmsf_fdf_fig")} | {"RMutils.util_FITS.strip_fits_dims"}


def watch(log):
    """runs a call and notes which of the objects its arguments refer to are not the same afterwards"""
    def w(I, f, args, kw, st, node):
        if f.qual not in PUBLIC or any(type(a).__name__ == "StarArg" for a in args) or "**" in kw:
            return I.enter(f, args, kw, st, node)
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        for p, d in list(zip(names[::-1], a.defaults[::-1])) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)]:
            # a default that can be modified is one object shared by all calls
            if isinstance(d, (ast.List, ast.Dict, ast.Call, ast.ListComp)) and p not in kw and p not in names[:len(args)] and f.closure is None:
                kw[p] = I.ev_default(f, d, st)
        seen = {}
        for n, v in list(zip(names, args)) + list(kw.items()):
            reach(v, st.heap, n, seen)
        before = {i: st.heap[i] for i in seen}
        h0 = st.heap
        v = I.enter(f, list(args), kw, st, node)
        if v is not BOTTOM:
            top = {}
            for i, p in seen.items():
                r = top.setdefault(p.split("[")[0].split(".")[0], [])
                if st.heap.get(i) is not before[i]:
                    r.append((p, before[i], st.heap.get(i)))
            d = any(top.values())
            log.append((f.qual, top, h0 if d else None, st.copy() if d else None))
        return v
    return w


def changed(chk, path, b, a, h0, st, w_):
    """compare an object with what it was"""
    if isinstance(b, Arr) and isinstance(a, Arr):
        I = chk.interp()
        s0 = I.new_state()
        s0.heap.update(h0)
        i, j = I.alloc(s0, b), None
        s1 = st.copy()
        j = I.alloc(s1, a)
        return chk.same_value("", path, j, s1, i, s0, where=w_)
    if type(a) is not type(b):
        return chk.holds("", path, False, "it becomes %r" % (a,), w_)
    if isinstance(b, Lst):
        return pairs(chk, path, list(enumerate(b.items)), list(enumerate(a.items)), w_)
    if isinstance(b, Dct):
        return pairs(chk, path, [(k, v[1]) for k, v in b.ent.items()], [(k, v[1]) for k, v in a.ent.items()], w_)
    if isinstance(b, Ob):
        return pairs(chk, path, list(b.attrs.items()), list(a.attrs.items()), w_)
    chk.undecided("", path, "%r" % (a,), w_)


def pairs(chk, path, b, a, w_):
    b, a = dict(b), dict(a)
    more = [str(k) for k in list(a) + list(b) if (k in a) != (k in b)]
    chk.holds("", path, not more, "entries added or removed: " + ", ".join(more[:4]), w_)
    for k in a:
        if k in b and a[k] is not b[k] and a[k] != b[k]:
            if isinstance(a[k], T.E) and isinstance(b[k], T.E):
                chk.same("", "%s[%s]" % (path, k), a[k], b[k], where=w_)
            else:
                chk.holds("", path, False, "entry %s is replaced" % (k,), w_)


MODS = ("p01", "p02", "p03", "p04", "p05", "p07", "p08", "p09", "p10", "p11", "p12", "p13", "p15", "p18", "p26", "p27", "p29", "p30")


def run(chk):
    seen = {}
    for m in MODS:
        log = []
        q = Quiet(chk.prop, "quick", chk.root)
        q.repo = chk.repo
        Interp.WATCH = staticmethod(watch(log))
        try:
            importlib.import_module("checks." + m).run(q)
        except verdict.Broken:
            pass
        finally:
            Interp.WATCH = None
        chk.callsites += q.callsites
        for qn, top, h0, st in log:
            chk.funcs.add(qn)
            for p, diff in top.items():
                r = seen.setdefault((qn, p), dict(n=0, bad=[]))
                r["n"] += 1
                if diff and len(r["bad"]) < 3:
                    r["bad"].append((diff, h0, st))
    c = verdict.Check(chk.prop, chk.tier, chk.root)
    c.repo = chk.repo
    for (qn, p), r in sorted(seen.items()):
        w_ = chk.where(qn)
        name = "%s: %s is left as it was" % (qn.rsplit(".", 1)[-1] if "models_ns" not in qn else qn.rsplit(".", 2)[-2], p)
        c.obls = []
        for diff, h0, st in r["bad"]:
            for path, b, a in diff:
                c.guarded("", path, lambda: changed(c, path, b, a, h0, st, w_), w_)
        bad = [o for o in c.obls if o["verdict"] == "VIOLATED"]
        und = [o for o in c.obls if o["verdict"] != "HOLDS"]
        if bad or not und:
            chk.holds("R20.inputs", name, not bad, "; ".join("%s: %s" % (o["construct"], o["detail"]) for o in bad[:3]), w_)
        else:
            chk.undecided("R20.inputs", name, "; ".join("%s: %s" % (o["construct"], o["detail"]) for o in und[:3]), w_)
    chk.extra["calls_watched"] = sum(r["n"] for r in seen.values())
    return dict(floor=150, explanation="The entry calls of every other check are interpreted once more, for every combination of options they enumerate. Around each call of a public analysis or plotting function, including calls nested in the tools, the abstract heap is compared before and after: every array, list, dictionary and header reachable from an argument (and every default argument that can be modified) has to be the same object with the same contents on every path; an object that was written to is compared element by element, as terms, with what it was.")
