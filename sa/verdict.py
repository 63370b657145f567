"""Obligations, verdicts, evidence and known findings.

An obligation compares the value-numbering term of a repository construct with the
term of an independent specification.  Verdicts:
  HOLDS      identical canonical terms, or indistinguishable by random interpretation
  VIOLATED   the terms differ in a finite model and the repository term is fully understood
  UNDECIDED  the analysis met a construct it has no semantics for (reported, never an alarm)
"""
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.setrecursionlimit(30000)

from .interp import *
from .interp import BOTTOM, PhiL, LcList, has_absent
from . import term as T
from . import rint
from .repo import Repo

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")


class Broken(Exception):
    """the analysis lost an anchor: neither holds nor violated"""


# results of list and array manipulations the engine left in symbolic form: two different such terms may well be equal
STRUCTURAL = {"concat", "maplist", "expand_dims", "array", "transpose", "swapaxes", "store", "stack", "vstack", "hstack", "dstack", "squeeze", "sortedlist", "setlist", "roll", "reshape", "repeat", "moveaxis",
              "column_stack", "zipknown", "unravel_index", "unique", "tile", "tensordot", "split", "slice", "seqconcat", "rot90", "rollaxis", "reversed", "repr", "removed", "range", "put", "product", "outer",
              "next", "ndindex", "multi", "meshgrid", "matmul", "map_coordinates", "map", "iter", "initobj", "indices", "heapval", "getattr", "full", "flip", "flatnonzero", "flat", "extended", "einsum", "dot", "dictcomp",
              "dellist", "coordsback", "badindex", "arrval", "appended", "append", "lenof", "pymax", "pymin", "shape", "outofrange", "initval", "view", "flatmax"}


def uninterpreted(e, acc=None):
    """names of function symbols in e that the analysis has no semantics for"""
    out = set()
    todo, seen, ats = [e], set(), []
    while todo:  # the bodies of loops are part of the term
        for a in all_atoms(todo.pop()):
            ats.append(a)
            if a.kind == "el" and a.d[0] in ALL_LOOPS and id(ALL_LOOPS[a.d[0]]) not in seen:
                lp = ALL_LOOPS[a.d[0]]
                seen.add(id(lp))
                todo += [x for i, u, _ in lp["vars"].values() for x in (i, u)] + [lp["cont"], lp["brk"], lp["mask"]] + list(lp["extents"])
    for a in ats:
        if a.opq and a.kind == "fn":
            out.add(a.d[0])
        elif a.kind == "fn":
            n = a.d[0]
            if n in STRUCTURAL or n.startswith(("ext:", "m:", "?", "call", "attr:", "updq", "seq", "appends", "stararg", "missing", "arr?", "phiarr", "method:")) and n not in rint.INTERP:
                out.add(n)
        elif a.kind == "sym" and a.opq:
            out.add(a.d[0])
    return out


class Check:
    def __init__(self, prop, tier="quick", root="/repo", level="other"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.obls = []
        self.extra = {}
        self.assumptions = []
        specs = os.path.join(HERE, "specs")
        extra = {"specs." + f[:-3]: os.path.join(specs, f) for f in sorted(os.listdir(specs)) if f.endswith(".py")} if os.path.isdir(specs) else {}
        self.repo = Repo(root, extra=extra)
        self.root = root
        self.funcs = set()
        self.callsites = 0
        self.effects = 0
        self.unknown = set()
        self.interps, self.unboundnames = [], set()
        self.trials = 25 if tier == "quick" else 120
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    # ------------------------------------------------------------ running the analysis
    def interp(self, **kw):
        I = Interp(self.repo, **kw)
        self.interps.append(I)
        return I

    def absorb(self, I):
        self.funcs |= {f for f in I.funcs_seen if not f.startswith("specs.")}
        self.callsites += len(I.callsites)
        self.effects += len(I.effects)
        self.unknown |= I.unknown_calls
        return I

    def where(self, qual):
        r = self.repo.resolve(qual)
        if r is None:
            raise Broken("anchor %s not found in %s" % (qual, self.root))
        return "%s:%d (%s)" % (self.repo.rel(r[1].path), getattr(r[2], "lineno", 1), qual)

    # ------------------------------------------------------------ verdicts
    def record(self, rule, construct, verdict, detail="", where=None, how=None):
        self.obls.append(dict(rule=rule, construct=construct, verdict=verdict, detail=str(detail)[:1800], where=where or "", how=how or ""))
        return verdict

    def holds(self, rule, construct, ok, detail="", where=None):
        return self.record(rule, construct, "HOLDS" if ok else "VIOLATED", detail if not ok else "", where, "structural")

    def undecided(self, rule, construct, detail="", where=None):
        return self.record(rule, construct, "UNDECIDED", detail, where)

    def guarded(self, rule, construct, f, where=None):
        """run an analysis step; an engine limitation makes it UNDECIDED, a lost anchor BROKEN"""
        n0 = len(self.interps)
        try:
            return f()
        except Broken:
            raise
        except (Abort, T.TooComplex, RecursionError) as ex:
            self.undecided(rule, construct, "%s: %s" % (type(ex).__name__, ex), where)
        except Exception as ex:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.undecided(rule, construct, "engine: %s: %s" % (type(ex).__name__, ex), where)
        finally:
            for I in self.interps[n0:]:
                for k, name, loc, g in I.issues:
                    if k in ("unbound", "undefined") and g is TRUE and (name, loc) not in self.unboundnames:
                        self.unboundnames.add((name, loc))
                        self.holds(rule + ".bound", "%s: name %s" % (construct, name), False, "%s is read here but never bound on this path" % name, loc)
            del self.interps[n0:]
        return None

    def term_verdict(self, got, want, assume=None, lens=None, loops=None, trials=None, vals=None):
        """(verdict, how, detail)"""
        if assume is not None and assume is not TRUE:
            got, want = ite(assume, got, UNDEF), ite(assume, want, UNDEF)
        if got is want:
            return "HOLDS", "canonical", ""
        try:
            r, d = rint.ri_equal(got, want, trials=trials or self.trials, seed=self.seed, lens=lens, loops=loops, vals=vals)
        except Exception as ex:  # the finite model cannot be evaluated: no verdict
            r, d = None, "%s: %s" % (type(ex).__name__, ex)
        if r is True:
            return "HOLDS", "random-interpretation", ""
        extra = uninterpreted(got) - uninterpreted(want)
        txt = "analysed: %s\n  required: %s\n  differ at %s" % (show(got, 700), show(want, 700), d)
        if extra:
            return "UNDECIDED", "", "unmodelled %s; %s" % (sorted(extra)[:6], txt)
        if r is None:
            return "UNDECIDED", "", "inconclusive (%s); %s" % (d, txt)
        return "VIOLATED", "", txt

    def same(self, rule, construct, got, want, assume=None, where=None, **k):
        if not isinstance(got, E) or not isinstance(want, E):
            return self.record(rule, construct, "UNDECIDED", "not a term: %r / %r" % (got, want), where)
        v, how, d = self.term_verdict(got, want, assume, **k)
        return self.record(rule, construct, v, d, where, how)

    # ------------------------------------------------------------ structured values
    def elements(self, v, n):
        """the n elements of a sequence value (list, tuple or one-dimensional array), None if it has another length"""
        if isinstance(v, (Lst, Tup)):
            return list(v.items) if len(v.items) == n else None
        if isinstance(v, Arr) and v.axes is not None and len(v.axes) == 1 and v.axes[0].label and sub(v.axes[0].L, num(n)) is ZERO:
            return [subst(v.expr, {v.axes[0].label: num(i)}) for i in range(n)]
        return None

    def same_value(self, rule, construct, got, gst, want, wst, assume=None, where=None, strict_dtype=False, **k):
        """compare structured values component-wise; every leaf is one obligation"""
        got, want = self.deref(got, gst), self.deref(want, wst)
        kw = dict(assume=assume, where=where, **k)
        if isinstance(want, Tup):
            if not isinstance(got, Tup) or len(got.items) != len(want.items):
                return self.shape_diff(rule, construct, got, want, where)
            for i, (a, b) in enumerate(zip(got.items, want.items)):
                n = got.names[i] if got.names else str(i)
                self.same_value(rule, "%s.%s" % (construct, n), a, gst, b, wst, **kw)
            return
        if isinstance(want, Lst):
            items = self.elements(got, len(want.items))
            if items is None:
                return self.shape_diff(rule, construct, got, want, where)
            for i, (a, b) in enumerate(zip(items, want.items)):
                self.same_value(rule, "%s[%d]" % (construct, i), a, gst, b, wst, **kw)
            return
        if isinstance(want, Dct):
            if not isinstance(got, Dct):
                return self.shape_diff(rule, construct, got, want, where)
            for kk, (ke, v) in want.ent.items():
                n = "%s[%s]" % (construct, show(ke))
                if kk not in got.ent:
                    self.record(rule, n, "VIOLATED", "entry missing", where)
                    continue
                self.same_value(rule, n, got.ent[kk][1], gst, v, wst, **kw)
            return
        if isinstance(want, Ob):
            if not isinstance(got, Ob):
                return self.shape_diff(rule, construct, got, want, where)
            for n in sorted(want.attrs):
                if n not in got.attrs:
                    self.record(rule, "%s.%s" % (construct, n), "VIOLATED", "attribute missing", where)
                    continue
                self.same_value(rule, "%s.%s" % (construct, n), got.attrs[n], gst, want.attrs[n], wst, **kw)
            return
        if isinstance(want, Arr) and isinstance(got, Arr) and want.axes is not None and got.axes is not None:
            return self.same_arr(rule, construct, got, want, **kw)
        if isinstance(got, Arr) and got.axes is not None and not got.axes:
            got = got.expr
        if isinstance(want, Arr) and want.axes is not None and not want.axes:
            want = want.expr
        if isinstance(got, (Arr,)) and isinstance(want, E) or isinstance(want, Arr) and isinstance(got, E):
            return self.shape_diff(rule, construct, got, want, where)
        tg, tw = self.as_term(got, gst), self.as_term(want, wst)
        return self.same(rule, construct, tg, tw, **kw)

    def as_term(self, v, st):
        I = Interp(self.repo)
        if isinstance(v, E):
            return v
        if isinstance(v, (Arr, Lst, Dct, Ob, MapL)):
            st = st.copy()
            v = I.alloc(st, v)
        return I.term(v, st)

    def shape_diff(self, rule, construct, got, want, where):
        if isinstance(got, (Phi, PhiL, LcList, MapL)) or isinstance(got, E) and uninterpreted(got) or isinstance(got, Arr) and (got.axes is None or uninterpreted(got.expr)):
            return self.undecided(rule, construct, "structure: %s vs %s" % (str(got)[:300], str(want)[:300]), where)
        return self.record(rule, construct, "VIOLATED", "different structure: %s instead of %s" % (str(got)[:400], str(want)[:400]), where)

    def deref(self, v, st):
        if isinstance(v, Ref):
            return st.heap[v.id]
        return v

    def same_arr(self, rule, construct, g, w, assume=None, where=None, **k):
        if any(a.mask is not TRUE for a in g.axes + w.axes) or any(a.parts for a in g.axes + w.axes):
            I = Interp(self.repo)
            return self.same(rule, construct, I.close_axes(g.axes, g.expr), I.close_axes(w.axes, w.expr), assume=assume, where=where, **k)
        if len(g.axes) != len(w.axes):
            return self.shape_diff(rule, construct, g, w, where)
        eg, ew = g.expr, w.expr
        mg, mw = {}, {}
        n = 0
        for i, (a, b) in enumerate(zip(g.axes, w.axes)):
            if (a.label is None) != (b.label is None):
                # size-1 axis against a labelled one
                if (a.L is not b.L):
                    return self.shape_diff(rule, construct, g, w, where)
            v, how, d = self.term_verdict(a.L, b.L, None, **k)
            if v != "HOLDS":
                return self.record(rule, "%s.shape[%d]" % (construct, i), v, d, where)
            nm = "@out%d" % i
            T.set_length(nm, b.L)
            if a.label is not None:
                mg[a.label] = lab(nm)
            if b.label is not None:
                mw[b.label] = lab(nm)
        eg, ew = subst(eg, mg), subst(ew, mw)
        if assume is not None:
            assume = subst(assume, mw)
        return self.same(rule, construct, eg, ew, assume=assume, where=where, **k)

    # ------------------------------------------------------------ finishing
    def finish(self, floor=1, explanation="", min_decided=0.5):
        known = load_known()
        vio, kf = [], []
        for o in self.obls:
            if o["verdict"] == "VIOLATED":
                key = (self.prop, o["rule"], o["construct"])
                (kf if key in known else vio).append(o)
        n = len(self.obls)
        dec = [o for o in self.obls if o["verdict"] != "UNDECIDED"]
        und = [o for o in self.obls if o["verdict"] == "UNDECIDED"]
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, "%s.violations.json" % self.prop)
        cov = dict(explanation=explanation or "static value-numbering of the listed functions against the specification terms",
                   obligations=n, decided=len(dec), undecided=len(und),
                   decided_canonically=sum(o["how"] == "canonical" for o in self.obls),
                   decided_by_random_interpretation=sum(o["how"] == "random-interpretation" for o in self.obls),
                   structural=sum(o["how"] == "structural" for o in self.obls),
                   functions_analysed=len(self.funcs), call_sites=self.callsites, effects=self.effects,
                   modules=len(self.repo.modules), source_digest=self.repo.digest(), floor=floor)
        cov.update(self.extra)
        rep = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                   wall_s=round(time.time() - self.t0, 3), assumptions=self.assumptions,
                   violations=len(vio))
        rules = {}
        for o in self.obls:
            c = rules.setdefault(o["rule"], {})
            c[o["verdict"]] = c.get(o["verdict"], 0) + 1
        cov["rules"] = rules
        step = max(1, -(-n // 500))  # the evidence file stays small: every step-th obligation is listed, and all that do not hold
        rep["obligation_list"] = [{k: o[k] for k in ("rule", "construct", "verdict", "how", "where")} for i, o in enumerate(self.obls) if i % step == 0 or o["verdict"] != "HOLDS"][:1500]
        rep["functions"] = sorted(self.funcs)
        rep["undecided"] = und[:40]
        rep["violation_list"] = vio[:60]
        rep["known_findings"] = kf
        with open(os.path.join(EVID, "%s.json" % self.prop), "w") as fh:
            json.dump(rep, fh, indent=1, default=str)
        with open(replay, "w") as fh:
            json.dump(dict(property=self.prop, violations=vio), fh, indent=1, default=str)
        print("%s: %d obligations over %d functions: %d hold, %d violated, %d undecided, %d known (%.1fs)" % (
            self.prop, n, len(self.funcs), sum(o["verdict"] == "HOLDS" for o in self.obls), len(vio), len(und), len(kf), time.time() - self.t0))
        for o in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, o["rule"], known[(self.prop, o["rule"], o["construct"])]))
        for o in und[:20]:
            print("  undecided %s / %s: %s" % (o["rule"], o["construct"], o["detail"][:int(os.environ.get("VERIF_DETAIL", "200"))]))
        for o in vio[:40]:
            print("  %s: rule %s: %s: %s" % (o["where"], o["rule"], o["construct"], o["detail"][: int(os.environ.get("VERIF_DETAIL", "700"))]))
        if vio:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        if n < floor or len(dec) < floor * min_decided:
            print("ANALYSIS-BROKEN property=%s: %d obligations (%d decided), floor %d" % (self.prop, n, len(dec), floor))
            return 3
        return 0


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as fh:
        d = json.load(fh)
    return {(f["property"], f["rule"], f["construct"]): f["what"] for f in d.get("known", [])}
