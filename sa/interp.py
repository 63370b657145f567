"""Flow-sensitive, interprocedural value-numbering dataflow analysis.

Abstractly evaluates the *source* of repository functions over the canonical term
domain of term.py.  Control-flow joins build gated phis (ordered if-then-else
terms); loops are summarised once (reductions, array stores, comprehensions, or a
canonical mu-term); calls to repository functions are analysed in context; numpy
and friends are modelled (npmodel.py); anything else is an uninterpreted function.
Nothing of the repository is imported or executed.
"""
import ast
import re
import itertools
from collections import namedtuple

from .term import *
from . import term as T
from .repo import absolute


class Abort(Exception):
    pass


class Dead(Abort):
    """evaluating the expression certainly raises"""

    def __init__(self, st, name, node):
        Abort.__init__(self, "%s is certain" % name)
        self.st, self.name, self.node = st, name, node


class Ax(namedtuple("Ax", "label L parts mask")):
    __slots__ = ()


def ax(label, L=None, parts=None, mask=TRUE):
    return Ax(label, L if L is not None else T.length(label), parts, mask)


ONE_AX = Ax(None, ONE, None, TRUE)


class Arr:
    __slots__ = ("axes", "expr", "dtype", "org", "base", "line")

    def __init__(s, axes, expr, dtype=None, org=frozenset(), base=None, line=None):
        s.axes, s.expr, s.dtype, s.org, s.base, s.line = axes, expr, dtype, org, base, line

    def __repr__(s):
        return "Arr%s %s" % ([a.label or "1" for a in s.axes] if s.axes is not None else "?", s.expr)


class Lst:
    __slots__ = ("items", "org")

    def __init__(s, items, org=frozenset()):
        s.items, s.org = tuple(items), org

    def __repr__(s):
        return "Lst%r" % (s.items,)


class ItL(Lst):
    """an iterator: the elements it has not given yet"""
    __slots__ = ()

    def __repr__(s):
        return "ItL%r" % (s.items,)


class MapL:
    """elements `elem` for every value of the index labels satisfying mask (a comprehension)"""
    __slots__ = ("labels", "mask", "elem", "prefix")

    def __init__(s, labels, mask, elem, prefix=()):
        s.labels, s.mask, s.elem, s.prefix = tuple(labels), mask, elem, tuple(prefix)

    def __repr__(s):
        return "MapL[%s|%s] %r" % (s.labels, s.mask, s.elem)


LABELS = itertools.count(1)
ALL_LOOPS = {}  # name of a loop-carried value -> summary of the loop


def hkey(d, k):
    """keywords of a FITS header are not case-sensitive"""
    if d.kind == "header" and isinstance(k, E) and is_str_const(k):
        return string(str_const(k).upper())
    return k


class Dct:
    __slots__ = ("ent", "base", "org", "kind")

    def __init__(s, ent, base=None, org=frozenset(), kind="dict"):
        s.ent, s.base, s.org, s.kind = dict(ent), base, org, kind

    def __repr__(s):
        return "Dct(%s)%s" % (s.base, {show(k): v for k, v in s.ent.values()})


class Ob:
    __slots__ = ("cls", "attrs", "org")

    def __init__(s, cls, attrs, org=frozenset()):
        s.cls, s.attrs, s.org = cls, dict(attrs), org

    def __repr__(s):
        return "Ob<%s>%s" % (s.cls, s.attrs)


class Ref:
    __slots__ = ("id",)

    def __init__(s, i):
        s.id = i

    def __eq__(s, o):
        return isinstance(o, Ref) and o.id == s.id

    def __hash__(s):
        return hash(s.id)

    def __repr__(s):
        return "&%d" % s.id


class Tup:
    __slots__ = ("items", "names", "cls")

    def __init__(s, items, names=None, cls=None):
        s.items, s.names, s.cls = tuple(items), names, cls

    def __repr__(s):
        return "Tup%r" % (s.items,) if not s.names else "%s(%s)" % (s.cls, ", ".join("%s=%r" % z for z in zip(s.names, s.items)))


class Func:
    __slots__ = ("node", "mod", "closure", "depth", "frameid", "self", "qual", "defaults", "kwdefaults", "outer", "raw")

    def __init__(s, node, mod, qual, closure=None, depth=None, frameid=None, self=None, defaults=None, kwdefaults=None, raw=False):
        s.outer, s.raw = set(), raw
        s.node, s.mod, s.qual, s.closure, s.depth, s.frameid, s.self = node, mod, qual, closure, depth, frameid, self
        s.defaults, s.kwdefaults = defaults, kwdefaults

    def bind(s, o):
        return Func(s.node, s.mod, s.qual, s.closure, s.depth, s.frameid, o, s.defaults, s.kwdefaults)

    def __repr__(s):
        return "Func<%s>" % s.qual


class Cls:
    __slots__ = ("node", "mod", "qual", "env", "depth", "frameid")

    def __init__(s, node, mod, qual):
        s.node, s.mod, s.qual = node, mod, qual
        s.env = s.depth = s.frameid = None

    def method(s, node, obj):
        """the function as an attribute of the class, bound to obj"""
        decs = {dec_name(d) for d in node.decorator_list}
        if "staticmethod" in decs:
            obj = None
        elif "classmethod" in decs:
            obj = s
        return Func(node, s.mod, s.qual + "." + node.name, s.env, s.depth, s.frameid, obj)

    def __repr__(s):
        return "Cls<%s>" % s.qual


class ModV:
    __slots__ = ("name",)

    def __init__(s, n):
        s.name = n

    def __repr__(s):
        return "Mod<%s>" % s.name


class Ext:
    """external (non-repository) object, by qualified name"""
    __slots__ = ("name",)

    def __init__(s, n):
        s.name = n

    def __repr__(s):
        return "Ext<%s>" % s.name


class Part:
    """functools.partial value"""
    __slots__ = ("f", "args", "kw")

    def __init__(s, f, args, kw):
        s.f, s.args, s.kw = f, tuple(args), dict(kw)

    def __repr__(s):
        return "Part<%r>" % (s.f,)


class Meth:
    """bound method of a modelled value"""
    __slots__ = ("obj", "name")

    def __init__(s, o, n):
        s.obj, s.name = o, n

    def __repr__(s):
        return "Meth<%r.%s>" % (s.obj, s.name)


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(s, a, b, c):
        s.lo, s.hi, s.step = a, b, c


class WhereIdx:
    """result of np.where(mask) / np.nonzero(mask): tuple of index arrays"""
    __slots__ = ("axes", "mask")

    def __init__(s, axes, mask):
        s.axes, s.mask = axes, mask


class Coords:
    """iterable of index tuples for which mask holds (argwhere / rot90(where), the latter backwards)"""
    __slots__ = ("axes", "mask", "order", "back")

    def __init__(s, axes, mask, order, back=False):
        s.axes, s.mask, s.order, s.back = axes, mask, order, back


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(s, lo, hi, step):
        s.lo, s.hi, s.step = lo, hi, step


class Phi:
    __slots__ = ("c", "a", "b")

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b

    def __repr__(s):
        return "Phi(%s ? %r : %r)" % (show(s.c, 60), s.a, s.b)


class St:
    __slots__ = ("frames", "heap", "guard")

    def __init__(s, frames, heap, guard):
        s.frames, s.heap, s.guard = frames, heap, guard

    def copy(s):
        return St(s.frames[:-1] + [dict(s.frames[-1])], dict(s.heap), s.guard)

    @property
    def env(s):
        return s.frames[-1]


class Effect:
    __slots__ = ("kind", "name", "args", "kw", "guard", "loc", "loops", "snap", "seq")

    def __init__(s, **k):
        for a in s.__slots__:
            setattr(s, a, k.get(a))

    def __repr__(s):
        return "Effect(%s %s %r %r @%s)" % (s.kind, s.name, s.args, s.kw, s.loc)


class Loc(namedtuple("Loc", "mod func line")):
    def __str__(s):
        return "%s:%s (in %s)" % (s.mod.replace(".", "/") + ".py", s.line, s.func)


def is_boolish(e):
    if e.kind == "ite":
        return is_boolish(e.d[1]) and is_boolish(e.d[2])
    return e.kind == "bool"


def nonneg(p):
    """index term certainly >= 0"""
    if p.kind == "ite":
        return nonneg(p.d[1]) and nonneg(p.d[2])
    if p.kind != "poly":
        return False
    for m, c in p.d:
        if c[1] or c[0] < 0:
            return False
        for a, x in m:
            if not nonneg_atom(a):
                return False
    return True


def nonneg_atom(a):
    if T._is_pos_atom(a) or a.kind == "lab":
        return True
    if a.kind == "red":
        if a.d[0] in ("argmax", "argmin", "nanargmax", "nanargmin"):
            return True
        if a.d[0] in ("sum", "max", "nanmax"):
            return nonneg(a.d[2])
        return False
    if a.kind == "fn":
        if a.d[0] in ("abs", "count", "argmax", "argmin", "nanargmax"):
            return True
        if a.d[0] in ("int", "floor", "ceil", "round", "floordiv"):
            return all(nonneg(x) for x in a.d[1])
        if a.d[0] == "max":
            return any(nonneg(x) for x in a.d[1])
        if a.d[0] == "mod":
            return True
        if a.d[0] == "min":
            return all(nonneg(x) for x in a.d[1])
    return False


class Interp:
    def __init__(self, repo, hooks=None, opaque=(), concrete=None):
        self.repo = repo
        self.hooks = hooks or {}
        self.opaque = set(opaque)
        self.effects = []
        self.keep_history = False
        self.issues = []
        self.nid = 0
        self.nframe = 0
        self.stack = []
        self.loopstack = []
        self.guards = []
        self.trystack = []
        self.rebound = set()
        self.localcls = {}
        self.soft = 0  # inside an expression that is evaluated under a condition
        self.node = None
        self.calls = 0
        self.loops = []
        self.funcs_seen = set()
        self.steps = 0
        self.max_steps = 400000
        self.frameids = []
        self.callsites = []
        self.unknown_calls = set()

    # ------------------------------------------------------------ basics
    def newid(self):
        self.nid += 1
        return self.nid

    def fresh(self, hint, L):
        lb = "%s~%d" % (hint.split("~")[0], next(LABELS))  # distinct between interpreters: extents are kept per label
        T.set_length(lb, L)
        return lb

    def alloc(self, st, obj):
        r = Ref(self.newid())
        st.heap[r.id] = obj
        return r

    def arr(self, st, axes, expr, dtype=None, org=frozenset(), base=None):
        if axes is not None and len(axes) == 0 and not org:
            return expr
        return self.alloc(st, Arr(None if axes is None else tuple(axes), expr, dtype, org, base, getattr(self.node, "lineno", None)))

    def input_array(self, st, name, labels, pos=False, real=True, Ls=None):
        axes = []
        for i, l in enumerate(labels):
            if l == 1:
                axes.append(ONE_AX)
            else:
                axes.append(ax(l, Ls[i] if Ls else None))
        e = el(name, [lab(a.label) for a in axes if a.label], pos=pos, real=real)
        return self.alloc(st, Arr(tuple(axes), e, None, frozenset(["param:" + name])))

    def new_state(self):
        return St([{}], {}, TRUE)

    def loc(self, node=None):
        n = node or self.node
        f = self.stack[-1] if self.stack else None
        return Loc(f.mod.name if f else "?", f.qual.split(".")[-1] if f else "?", getattr(n, "lineno", 0))

    def abs_guard(self, st):
        try:
            return and_(*(self.guards + [st.guard]))
        except TooComplex:
            return TRUE

    def effect(self, st, kind, name, args=(), kw=None, node=None):
        e = Effect(kind=kind, name=name, args=tuple(args), kw=dict(kw or {}), guard=self.abs_guard(st),
                   loc=self.loc(node), loops=tuple(self.loopstack), snap=dict(st.heap), seq=len(self.effects))
        self.effects.append(e)
        return e

    def issue(self, kind, msg, st=None, node=None):
        self.issues.append((kind, msg, self.loc(node), self.abs_guard(st) if st is not None else TRUE))

    def may_raise(self, st, cond, what):
        if self.trystack:
            self.trystack[-1].append((and_(st.guard, cond), what))

    # ------------------------------------------------------------ closing values to terms
    def term(self, v, st):
        """any value as a closed term (for use as an argument of an uninterpreted function)"""
        if isinstance(v, E):
            return v
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, Arr):
                if o.axes is None:
                    return fn("arr?", o.expr)
                return self.close_axes(o.axes, o.expr)
            if isinstance(o, Lst):
                return fn("list", *[self.term(x, st) for x in o.items])
            if isinstance(o, Dct):
                ks = sorted(o.ent)
                return fn("dict:" + str(o.base or ""), *[fn("kv", o.ent[k][0], self.term(o.ent[k][1], st)) for k in ks])
            if isinstance(o, MapL):
                b = self.term(o.elem, st)
                for l, L in reversed(o.labels):
                    b = self.close_label(l, L, ite(o.mask, b, sym("filtered")))
                return fn("maplist", *([self.term(x, st) for x in o.prefix] + [b]))
            if isinstance(o, PhiL):
                return self.split_phil(v, st, lambda: self.term(v, st))
            if isinstance(o, Ob):
                ks = sorted(o.attrs)
                return fn("obj:" + o.cls, *[fn("kv", string(k), self.term(o.attrs[k], st)) for k in ks])
        if isinstance(v, Tup):
            return fn("tuple", *[self.term(x, st) for x in v.items])
        if isinstance(v, Func):
            return string("<function %s>" % v.qual)
        if isinstance(v, (Cls,)):
            return string("<class %s>" % v.qual)
        if isinstance(v, (Ext, ModV)):
            return string("<%s>" % v.name)
        if isinstance(v, Meth):
            return fn("method:" + v.name, self.term(v.obj, st))
        if isinstance(v, Phi):
            return ite(v.c, self.term(v.a, st), self.term(v.b, st))
        if isinstance(v, SliceV):
            return fn("slice", *[self.term(x, st) if x is not None else NONE for x in (v.lo, v.hi, v.step)])
        if isinstance(v, WhereIdx):
            return fn("where", self.close_axes(v.axes, v.mask))
        if isinstance(v, Coords):
            return fn("coordsback" if v.back else "coords", self.close_axes(v.axes, v.mask))
        if isinstance(v, RangeV):
            return fn("range", v.lo, v.hi, v.step)
        return fn("?" + type(v).__name__, opq=True)

    def split_phil(self, ref, st, f):
        """apply f to both alternatives of a list that differs between paths"""
        o = st.heap[ref.id]
        out = []
        for x in (o.a, o.b):
            st.heap[ref.id] = x
            out.append((f(), st.heap[ref.id]))
        (a, oa), (b, ob) = out
        st.heap[ref.id] = o if oa is o.a and ob is o.b else PhiL(o.c, oa, ob)
        if a is b:
            return a
        return ite(o.c, a, b) if isinstance(a, E) and isinstance(b, E) else Phi(o.c, a, b)

    def close_label(self, label, L, body):
        bn = "%%%d" % (body.depth + 1)
        b = subst(body, {label: lab(bn)})
        at = T.mk("red", ("lam", bn, b, L), "lam|" + bn + "|" + b.key + "|" + L.key, (b.labels - {bn}) | L.labels, b.opq, b._real if b.kind == "poly" else True, body.depth + 1, b.size + 1)
        return T._as_poly(at)

    def close_axes(self, axes, expr):
        e = expr
        for a in reversed(axes):
            if a.mask is not TRUE:
                e = ite(a.mask, e, sym("filtered"))
            for l, L in reversed(self.base_axes(a)):
                e = self.close_label(l, L, e)
            if a.label is None and not a.parts:
                e = fn("ax1", e)
        return e

    @staticmethod
    def base_axes(a):
        if a.parts:
            out = []
            for p in a.parts:
                out += Interp.base_axes(p)
            return out
        if a.label is None:
            return []
        # the index of a masked axis ranges over the unmasked extent
        return [(a.label, a.L if a.mask is TRUE else T.length(a.label))]

    # ------------------------------------------------------------ names
    def lookup(self, name, st, node=None):
        fr = st.frames[-1]
        if name in fr:
            return self.read(fr[name], name, st, node)
        f = self.stack[-1] if self.stack else None
        # closures
        while f is not None and f.closure is not None:
            env = f.closure
            if f.depth is not None and f.depth < len(st.frames) and len(self.frameids) > f.depth and self.frameids[f.depth] == f.frameid:
                env = st.frames[f.depth]
            if name in env:
                return self.read(env[name], name, st, node)
            f = env.get("%func")
        f = self.stack[-1] if self.stack else None
        if f is not None:
            v = self.global_(f.mod, name, st)
            if v is not None:
                return v
            if isinstance(f.node, (ast.FunctionDef, ast.Lambda)) and self.is_local(f.node, name):
                self.issue("unbound", name, st, node)
                self.may_raise(st, TRUE, "UnboundLocalError")
                return fn("unbound:" + name, opq=True)
        if name in BUILTINS:
            return Ext("builtins." + name)
        self.issue("undefined", name, st, node)
        return fn("undefined:" + name, opq=True)

    def read(self, v, name, st, node):
        if isinstance(v, E) and v.kind in ("ite", "undef"):
            if has_undef(v):
                bad = lift("isundef", lambda x: TRUE if x is UNDEF else FALSE, v)
                g = and_(self.abs_guard(st), bad)
                if g is not FALSE:
                    self.issues.append(("unbound", name, self.loc(node), g))
                    self.may_raise(st, bad, "UnboundLocalError")
                return drop_undef(v)
        if isinstance(v, Phi):
            for x, y, pol in ((v.a, v.b, True), (v.b, v.a, False)):
                if x is UNDEF:
                    c = v.c if pol else not_(v.c)
                    g = and_(self.abs_guard(st), c)
                    if g is not FALSE:
                        self.issues.append(("unbound", name, self.loc(node), g))
                        self.may_raise(st, c, "UnboundLocalError")
                    return y
        return v

    _locals_cache = {}

    def is_local(self, node, name):
        k = id(node)
        if k not in self._locals_cache:
            s = set()
            body = node.body if isinstance(node.body, list) else [node.body]
            for b in body:
                for n in walk_scope(b):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        s.add(n.id)
            self._locals_cache[k] = s
        return name in self._locals_cache[k]

    def global_(self, mod, name, st):
        if (mod.name, name) in self.rebound:
            return fn("global:" + name, opq=True)
        if name in mod.funcs:
            n = mod.funcs[name]
            return Func(n, mod, mod.name + "." + name)
        if name in mod.classes:
            return Cls(mod.classes[name], mod, mod.name + "." + name)
        if name in mod.imports:
            q = mod.imports[name]
            return self.qual(q, st)
        for a in reversed(mod.assigns):
            for t in getattr(a, "targets", [getattr(a, "target", None)]):
                if isinstance(t, ast.Name) and t.id == name and a.value is not None and not isinstance(a, ast.AugAssign):
                    self.stack.append(Func(mod.tree, mod, mod.name + ".<module>"))
                    self.frameids.append(-1)
                    st.frames.append({})
                    try:
                        return self.ev(a.value, st)
                    finally:
                        st.frames.pop()
                        self.frameids.pop()
                        self.stack.pop()
        return None

    def qual(self, q, st):
        r = self.repo.resolve(q)
        if r is None:
            top = q.split(".")[0]
            if top in self.repo.PKGS and q in self.repo.modules:
                return ModV(q)
            return self.ext_value(q)
        kind, mod, node = r
        if kind == "module":
            return ModV(mod.name)
        if kind == "func":
            return Func(node, mod, mod.name + "." + node.name)
        if kind == "class":
            return Cls(node, mod, mod.name + "." + node.name)
        return self.global_(mod, q.rpartition(".")[2], st)

    def ext_value(self, q):
        q = ALIAS.get(q, q)
        c = EXT_CONST.get(q)
        if c is not None:
            return c
        return Ext(q)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                raise Abort("step budget")
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Abort("statement " + type(s).__name__)
        if self.soft:
            return m(s, st, fr)
        n = len(st.frames), len(self.stack), len(self.frameids)
        try:
            return m(s, st, fr)
        except Dead as e:
            del st.frames[n[0]:], self.stack[n[1]:], self.frameids[n[2]:]
            self.soft = 0
            return self.do_raise(e.st, e.name, e.node or s)

    def certain(self, st, name, node):
        """the expression being evaluated raises whenever it is reached"""
        if self.soft or not self.stack:
            self.may_raise(st, TRUE, name)
            return
        raise Dead(st, name, node)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.ev(s.value, st)
        if v is BOTTOM:
            return None
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Global(self, s, st, fr):
        for n in s.names:
            self.rebound.add((self.stack[-1].mod.name, n))
        return st

    def s_Nonlocal(self, s, st, fr):
        self.stack[-1].outer.update(s.names)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            q = a.name if a.asname else a.name.split(".")[0]
            st.env[a.asname or a.name.split(".")[0]] = self.qual(q, st)
        return st

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            v = self.qual(absolute(self.stack[-1].mod, s) + "." + a.name, st) if s.level else self.qual((s.module or "") + "." + a.name, st)
            if isinstance(v, Ext):
                self.may_raise(st, boolatom(fn("b:importerror", string(v.name), raw=True)), "ImportError")
            st.env[a.asname or a.name] = v
        return st

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.mkfunc(s, st, s.name)
        return st

    def s_ClassDef(self, s, st, fr):
        c = st.env[s.name] = Cls(s, self.stack[-1].mod, self.stack[-1].qual + "." + s.name)
        self.localcls[c.qual] = c
        c.env = dict(st.env)
        c.env["%func"] = self.stack[-1]
        c.depth, c.frameid = len(st.frames) - 1, self.frameids[-1] if self.frameids else None
        return st

    def mkfunc(self, node, st, name):
        defaults = [self.ev(d, st) for d in node.args.defaults]
        kwd = [self.ev(d, st) if d is not None else None for d in node.args.kw_defaults]
        env = dict(st.env)
        env["%func"] = self.stack[-1]
        return Func(node, self.stack[-1].mod, self.stack[-1].qual + "." + name, env, len(st.frames) - 1,
                    self.frameids[-1] if self.frameids else None, None, defaults, kwd)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if v is BOTTOM:
            return None
        fr.rets.append((st.guard, v, st, s))
        return None

    def s_Raise(self, s, st, fr):
        name = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            try:
                for a in e.args:
                    self.ev(a, st)
            except Abort:
                raise
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        return self.do_raise(st, name, s)

    def do_raise(self, st, name, node):
        if self.trystack:
            self.trystack[-1].append((st.guard, name))
            self.trystack[-1].append(("state", st))
            return None
        self.effect(st, "raise", name, node=node)
        return None

    def s_Assert(self, s, st, fr):
        c = truth(self.scalar(self.ev(s.test, st), st))
        self.effect(st.copy(), "assert", "assert", [c], node=s)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.delitem(o, k, st, t)
        return st

    def delitem(self, o, k, st, node):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], Dct) and isinstance(k, E):
            d = st.heap[o.id]
            k = hkey(d, k)
            ent = dict(d.ent)
            present = self.d_contains(d, k)
            if present is FALSE and not self.trystack:
                self.issue("key", "deleted key %s is not there" % show(k), st, node)
            self.effect(st, "delkey", show(k), [o, k, present], node=node)
            self.may_raise(st, not_(present), "KeyError")
            ent.pop(k.key, None)
            nd = Dct(ent, d.base, d.org, d.kind)
            if d.base is not None:
                nd.ent[k.key] = (k, ABSENT)
            st.heap[o.id] = nd
            self.note_mut(o, st, node)
        elif isinstance(o, Ref) and isinstance(st.heap[o.id], (Lst, MapL)):
            h = st.heap[o.id]
            c = const_val(k) if isinstance(h, Lst) and isinstance(k, E) and k.kind == "poly" else None
            if c is not None and c == int(c) and -len(h.items) <= c < len(h.items):
                it = list(h.items)
                del it[int(c)]
                st.heap[o.id] = Lst(it, h.org)
            elif c is not None:
                self.do_raise(st, "IndexError", node)
            else:
                st.heap[o.id] = MapL((), TRUE, fn("dellist", self.term(o, st), self.term(k, st)))
            self.note_mut(o, st, node)
        else:
            self.effect(st, "delitem", "", [o, k], node=node)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st)
        if v is BOTTOM:
            return None
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st)
            if v is BOTTOM:
                return None
            self.assign(s.target, v, st)
        return st

    def s_AugAssign(self, s, st, fr):
        opn = type(s.op).__name__
        v = self.ev(s.value, st)
        if v is BOTTOM:
            return None
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
            if isinstance(cur, Ref) and isinstance(st.heap[cur.id], Arr):
                r = self.binop(opn, cur, v, st)
                self.inplace(cur, r, st, s)
                return st
            if isinstance(cur, Ref) and isinstance(st.heap[cur.id], (Lst, MapL)) and opn == "Add":
                nv = self.binop(opn, cur, v, st)
                if isinstance(nv, Ref):
                    st.heap[cur.id] = st.heap[nv.id]
                    return st
            if isinstance(cur, Ref) and isinstance(st.heap[cur.id], Dct) and opn == "BitOr":
                nv = self.binop(opn, cur, v, st)
                if isinstance(nv, Ref):
                    st.heap[cur.id] = st.heap[nv.id]
                    return st
            st.env[t.id] = self.binop(opn, cur, v, st)
            return st
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, t)
            if isinstance(cur, Ref) and isinstance(st.heap.get(cur.id), Arr):
                self.inplace(cur, self.binop(opn, cur, v, st), st, s)
            else:
                self.setattr(o, t.attr, self.binop(opn, cur, v, st), st, s)
            return st
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            cur = self.getitem(o, k, st, t)
            if isinstance(cur, Ref) and isinstance(st.heap.get(cur.id), Arr) and not self.isarr(o, st):
                self.inplace(cur, self.binop(opn, cur, v, st), st, s)  # the array held by a list or dictionary
                return st
            self.setitem(o, k, self.binop(opn, cur, v, st), st, s)
            return st
        raise Abort("augassign")

    def inplace(self, ref, r, st, node):
        a = st.heap[ref.id]
        axes, e = self.num(r, st)
        if axes is not None and a.axes is not None and axes:
            # align labels of r to a
            e = self.align(a.axes, axes, e)
        st.heap[ref.id] = Arr(a.axes, e, a.dtype, a.org, a.base, getattr(node, "lineno", None))
        self.wthrough(ref, st)
        self.note_mut(ref, st, node)

    def wthrough(self, ref, st):
        a = st.heap[ref.id]
        if a.base is None:
            return
        bid, how = a.base
        if how == "either":  # one of two arrays, depending on a condition
            for i, g in ((bid[1], bid[0]), (bid[2], not_(bid[0]))):
                b = st.heap.get(i)
                if isinstance(b, Arr) and b.axes is not None and len(b.axes) == len(a.axes):
                    st.heap[i] = Arr(b.axes, ite(g, self.align(b.axes, a.axes, a.expr), b.expr), b.dtype, b.org, b.base, b.line)
                    self.wthrough(Ref(i), st)
            return
        b = st.heap.get(bid)
        if not isinstance(b, Arr):
            return
        if how == "whole":
            e = a.expr
        else:
            e = how(st, a, b)
        st.heap[bid] = Arr(b.axes, e, b.dtype, b.org, b.base, b.line)
        self.wthrough(Ref(bid), st)

    def note_mut(self, ref, st, node):
        o = st.heap[ref.id]
        org = set(getattr(o, "org", ()))
        if org:
            self.effect(st, "mutate", ",".join(sorted(org)), [ref], node=node)

    def align(self, axes, baxes, e):
        """rename labels of e (over baxes) to those of axes (broadcast-aligned)"""
        mp = {}
        for a, b in zip(reversed(axes), reversed(baxes)):
            self.unify_ax(a, b, mp)
        return subst(e, mp) if mp else e

    def unify_ax(self, a, b, mp):
        A, B = self.base_axes(a), self.base_axes(b)
        if len(A) == len(B):
            ren = {lb: lab(la) for (la, _), (lb, _) in zip(A, B) if la != lb}
            if (subst(b.mask, ren) if ren and b.mask is not TRUE else b.mask) is a.mask or not A:
                mp.update(ren)
            elif len(A) == 1 and not a.parts and not b.parts:
                # element k of one selection meets element k of the other
                k = lab(A[0][0]) if a.mask is TRUE else self.ordinal(A, a.mask)
                mp[B[0][0]] = k if b.mask is TRUE else fn("nthtrue", self.lam_mask(B, b.mask), k)
            else:
                for i, (lb, L) in enumerate(B):
                    mp[lb] = fn("misaligned%d" % i, self.lam_mask(A, a.mask), self.lam_mask(B, b.mask), *[lab(l) for l, L in A], opq=True)
        elif B and not A:
            pass
        elif A and B:
            # merged vs unmerged of equal length: decompose
            if len(B) == 1 and len(A) > 1:
                idx = ZERO
                for l, L in A:
                    idx = add(mul(idx, L), lab(l))
                mp[B[0][0]] = idx
            elif len(A) == 1:
                rem = lab(A[0][0])
                for l, L in reversed(B[1:]):
                    mp[l] = _mod(rem, L)
                    rem = _floordiv(rem, L)
                mp[B[0][0]] = rem

    def s_If(self, s, st, fr):
        cv = self.ev(s.test, st)
        if cv is BOTTOM:
            return None
        return self.branch(cv, st, lambda z: self.block(s.body, z, fr), lambda z: self.block(s.orelse, z, fr), s)

    def cond(self, v, st):
        c = truth(self.scalar(v, st))
        if c is TRUE or c is FALSE:
            return c
        g = self.abs_guard(st)
        try:
            if and_(g, c) is FALSE:
                return FALSE
            if and_(g, not_(c)) is FALSE:
                return TRUE
        except TooComplex:
            pass
        return c

    def ambiguous(self, v, st):
        """the truth value of an array of several elements is an error"""
        if isinstance(v, Phi):
            return self.ambiguous(v.a, st) or self.ambiguous(v.b, st)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            return isinstance(o, Arr) and o.axes is not None and any(a.label is not None or a.parts for a in o.axes)
        return False

    def branch(self, cv, st, fa, fb, node=None):
        if isinstance(cv, (Ref, Phi)) and self.ambiguous(cv, st):
            if isinstance(cv, Ref):
                return self.do_raise(st, "ValueError", node)
            return self.branch(cv.c, st, lambda z: self.branch(cv.a, z, fa, fb, node), lambda z: self.branch(cv.b, z, fa, fb, node))
        c = self.cond(cv, st)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        s1, s2 = st.copy(), st.copy()
        s1.guard = self.gand(st.guard, c)
        s2.guard = self.gand(st.guard, not_(c))
        r1 = fa(s1)
        r2 = fb(s2)
        return self.merge(c, r1, r2)

    def gand(self, a, b):
        try:
            return and_(a, b)
        except TooComplex:
            return a

    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        r = St(s1.frames[:-1] + [{}], {}, TRUE)
        try:
            r.guard = or_(s1.guard, s2.guard)
        except TooComplex:
            r.guard = TRUE
        h1, h2 = s1.heap, s2.heap
        heap = r.heap
        diff = []
        for k, o in h1.items():
            o2 = h2.get(k)
            if o2 is None or o2 is o:
                heap[k] = o
            else:
                diff.append(k)
        for k, o in h2.items():
            if k not in h1:
                heap[k] = o
        for k in diff:
            heap[k] = h1[k]
        for k in diff:
            heap[k] = self.merge_obj(c, h1[k], h2[k], r, s1, s2)
        e1, e2 = s1.env, s2.env
        for k in list(e1) + [x for x in e2 if x not in e1]:
            a, b = e1.get(k, UNDEF), e2.get(k, UNDEF)
            r.env[k] = a if a is b or (isinstance(a, Ref) and a == b) else self.merge_val(c, a, b, r, s1, s2)
        return r

    def merge_val(self, c, a, b, r, s1, s2, depth=0):
        if a is b:
            return a
        if isinstance(a, E) and isinstance(b, E):
            return ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return a
            o1, o2 = s1.heap.get(a.id, r.heap.get(a.id)), s2.heap.get(b.id, r.heap.get(b.id))
            if type(o1) is type(o2) and depth < 8:
                m = self.merge_obj(c, o1, o2, r, s1, s2, depth + 1, strict=True)
                if m is not None:
                    if isinstance(m, Arr) and m.axes is not None and o1.axes is not None and o2.axes is not None and all(x.mask is TRUE for x in m.axes):
                        m.base = ((c, a.id, b.id), "either")
                    return self.alloc(r, m)
            return Phi(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.names == b.names:
            return Tup([self.merge_val(c, x, y, r, s1, s2, depth + 1) for x, y in zip(a.items, b.items)], a.names, a.cls)
        # scalar with array: broadcast
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, Ref) and isinstance(y, E) and y.kind == "poly" and not y.opq:
                o = (s2 if flip else s1).heap.get(x.id)
                if isinstance(o, Arr) and is_const(y):
                    e = ite(c, o.expr, y) if not flip else ite(c, y, o.expr)
                    return self.alloc(r, Arr(o.axes, e, o.dtype, o.org, None, o.line))
        if isinstance(a, WhereIdx) and isinstance(b, WhereIdx) and len(a.axes) == len(b.axes) and all(self.same_len(x, y) for x, y in zip(a.axes, b.axes)):
            return WhereIdx(a.axes, or_(and_(c, a.mask), and_(not_(c), self.align(a.axes, b.axes, b.mask))))
        if type(a) is type(b) and isinstance(a, Func) and a.node is b.node and a.self is b.self:
            return a
        if type(a) is type(b) and isinstance(a, (Ext, ModV)) and a.name == b.name:
            return a
        return Phi(c, a, b)

    def merge_obj(self, c, o1, o2, r, s1, s2, depth=0, strict=False):
        if o1 is o2:
            return o1
        if isinstance(o1, Arr) and isinstance(o2, Arr):
            if o1.axes is None or o2.axes is None:
                if strict and not (o1.axes is None and o2.axes is None):
                    return None
                return Arr(None, ite(c, o1.expr, o2.expr), o1.dtype if o1.dtype is o2.dtype else None, o1.org | o2.org, None, o1.line)
            if len(o1.axes) == len(o2.axes) and all(self.same_len(x, y) for x, y in zip(o1.axes, o2.axes)):
                e2 = self.align(o1.axes, o2.axes, o2.expr)
                return Arr(o1.axes, ite(c, o1.expr, e2), o1.dtype if o1.dtype is o2.dtype else None, o1.org | o2.org, o1.base if o1.base == o2.base else None, o1.line)
            if len(o1.axes) == len(o2.axes) == 1 and (o1.axes[0].mask is not TRUE or o2.axes[0].mask is not TRUE):
                # two selections from the same values
                x, y = o1.axes[0], o2.axes[0]
                A, B = self.base_axes(x), self.base_axes(y)
                if len(A) == len(B) and all(p[1] is q[1] for p, q in zip(A, B)):
                    mp = {q[0]: lab(p[0]) for p, q in zip(A, B)}
                    if subst(o2.expr, mp) is o1.expr:
                        m = or_(and_(c, x.mask), and_(not_(c), subst(y.mask, mp)))
                        return Arr((Ax(x.label, self.count(x.parts or (ax(x.label, A[0][1]),), m), x.parts, m),), o1.expr, o1.dtype if o1.dtype is o2.dtype else None, o1.org | o2.org, None, o1.line)
            if strict:
                return None
            return Arr(None, fn("phiarr", c, self.close_axes(o1.axes, o1.expr), self.close_axes(o2.axes, o2.expr)), None, o1.org | o2.org)
        if isinstance(o1, Lst) and isinstance(o2, Lst):
            if len(o1.items) == len(o2.items):
                return Lst([self.merge_val(c, x, y, r, s1, s2, depth + 1) for x, y in zip(o1.items, o2.items)])
            if strict:
                return None
            return PhiL(c, o1, o2)
        if isinstance(o1, Dct) and isinstance(o2, Dct):
            if o1.base != o2.base and strict:
                return None
            ent = {}
            for k in list(o1.ent) + [x for x in o2.ent if x not in o1.ent]:
                kv = o1.ent.get(k) or o2.ent.get(k)
                a = o1.ent[k][1] if k in o1.ent else (self.d_missing(o1, kv[0]))
                b = o2.ent[k][1] if k in o2.ent else (self.d_missing(o2, kv[0]))
                ent[k] = (kv[0], a if a is b else self.merge_val(c, a, b, r, s1, s2, depth + 1))
            return Dct(ent, o1.base, o1.org | o2.org, o1.kind)
        if isinstance(o1, Ob) and isinstance(o2, Ob) and o1.cls == o2.cls:
            at = {}
            for k in list(o1.attrs) + [x for x in o2.attrs if x not in o1.attrs]:
                a, b = o1.attrs.get(k, UNDEF), o2.attrs.get(k, UNDEF)
                at[k] = a if a is b else self.merge_val(c, a, b, r, s1, s2, depth + 1)
            return Ob(o1.cls, at, o1.org | o2.org)
        if isinstance(o1, MapL) and isinstance(o2, MapL) and o1.labels == o2.labels:
            return MapL(o1.labels, ite(c, o1.mask, o2.mask), self.merge_val(c, o1.elem, o2.elem, r, s1, s2, depth + 1), o1.prefix)
        if strict:
            return None
        return PhiL(c, o1, o2)

    def d_missing(self, d, k):
        return ABSENT if d.base is None else fn("opt:" + d.base, k)

    def same_len(self, a, b):
        return a.L is b.L and (a.label is None) == (b.label is None)

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        st0 = st.copy()
        self.trystack.append([])
        n_eff = len(self.effects)
        st1 = self.block(s.body, st, fr)
        rec = self.trystack.pop()
        conds = [(g, w) for g, w in rec if g != "state"]
        exc = FALSE
        base = st0.guard
        try:
            for g, w in conds:
                exc = or_(exc, g)
        except TooComplex:
            exc = boolatom(fn("b:exc", string(str(len(conds))), raw=True))
        if st1 is not None and s.orelse:
            st1 = self.block(s.orelse, st1, fr)
        if exc is FALSE or not s.handlers:
            out = st1
        else:
            st2 = st0
            if s.handlers:
                names = [h for h in s.handlers]
                out_h = None
                # handlers tried in order; match by recorded exception names
                first = True
                remaining = exc
                res = None
                sts = []
                for h in s.handlers:
                    hn = self.handler_names(h)
                    hc = FALSE
                    rest = []
                    for g, w in conds:
                        if hn is None or w in hn or w == "?" or self.exc_sub(w, hn):
                            hc = or_(hc, g)
                        else:
                            rest.append((g, w))
                    if hc is FALSE:
                        continue
                    z = st0.copy()
                    z.guard = self.gand(st0.guard, hc)
                    # heap effects of the body before the exception are kept only if body state known
                    if h.name:
                        z.env[h.name] = fn("exception", string(",".join(sorted({w for g, w in conds}))))
                    r = self.block(h.body, z, fr)
                    sts.append((hc, r))
                    conds = rest
                out = st1
                if st1 is not None:
                    g1 = self.gand(st1.guard, not_(exc))
                    st1.guard = g1
                    if g1 is FALSE:
                        out = None
                for hc, r in reversed(sts):
                    out = self.merge(hc, r, out)
                if conds:
                    for g, w in conds:
                        if self.trystack:
                            self.trystack[-1].append((g, w))
        if s.finalbody and out is not None:
            out = self.block(s.finalbody, out, fr)
        return out

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        ns = [t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?") for t in ts]
        if "Exception" in ns or "BaseException" in ns:
            return None
        return ns

    EXC_PARENT = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "FileNotFoundError": ("OSError", "IOError"),
                  "ImportError": (), "ModuleNotFoundError": ("ImportError",), "UnboundLocalError": ("NameError",), "OSError": ("IOError",)}

    def exc_sub(self, w, hn):
        return any(p in hn for p in self.EXC_PARENT.get(w, ()))

    def s_Break(self, s, st, fr):
        fr.loops[-1].breaks.append(st)
        return None

    def s_Continue(self, s, st, fr):
        fr.loops[-1].conts.append(st)
        return None

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st)
        if it is BOTTOM:
            return None
        lazy = isinstance(it, Ref) and isinstance(st.heap.get(it.id), ItL)
        seq = ("known", st.heap[it.id].items) if lazy else self.iterate(it, st)
        if seq[0] == "known":
            lp = LoopCtx()
            fr.loops.append(lp)
            brk = []
            for v in seq[1]:
                if st is None:
                    break
                if lazy:  # an iterator: its body may take elements too, and a break leaves the rest
                    v = self.take(it, st)
                    if v is None:
                        break
                self.assign(s.target, v, st)
                lp.conts = []
                st = self.block(s.body, st, fr)
                for c in reversed(lp.conts):
                    st = self.merge(c.guard, c, st) if st is not None else c
                if lp.breaks:
                    brk += lp.breaks
                    lp.breaks = []
            fr.loops.pop()
            if s.orelse and st is not None:
                st = self.block(s.orelse, st, fr)
            for b in reversed(brk):
                st = self.merge(b.guard, b, st) if st is not None else b
            return st
        return self.sym_loop(s, st, fr, seq, None)

    def s_While(self, s, st, fr):
        f = counted_while(s)
        if f is not None and isinstance(st.env.get(f[0]), E) and st.env[f[0]].kind == "poly":
            k0 = "%from" + f[0]
            st.env[k0] = st.env[f[0]]
            return self.block(f[1], st, fr)
        c = self.cond(self.ev(s.test, st), st)
        if c is FALSE:
            return self.block(s.orelse, st, fr) if s.orelse else st
        return self.sym_loop(s, st, fr, None, s.test)

    def sym_loop(self, s, st, fr, seq, test):
        """summarise a loop over a symbolic domain (for) or with a symbolic condition (while)"""
        loopid = "L%d" % next(LABELS)
        if seq is not None:
            _, labels, mask, elem, ordinal = seq
            labset = [l for l, L in labels]
        else:
            labels, mask, labset = (), TRUE, []
        n_eff, n_iss = len(self.effects), len(self.issues)
        entry = st
        lc = {}  # slot -> placeholder spec

        def run(lcslots, final):
            z = entry.copy()
            z.guard = TRUE
            info = {}
            self.loopstack.append((loopid, tuple(labset)))
            self.guards.append(entry.guard)
            saved = self.trystack
            try:
                for slot in lcslots:
                    self.install_lc(slot, z, entry, loopid, info)
                if test is not None:
                    cv = self.scalar(self.ev(test, z), z)
                    cont = truth(cv)
                else:
                    cont = TRUE
                    self.assign(s.target, elem(z) if callable(elem) else elem, z)
                lp = LoopCtx()
                fr.loops.append(lp)
                nret = len(fr.rets)
                z.guard = TRUE
                out = self.block(s.body, z, fr)
                fr.loops.pop()
                for c in reversed(lp.conts):
                    out = self.merge(c.guard, c, out) if out is not None else c
                brk = FALSE
                for b in lp.breaks:
                    brk = or_(brk, b.guard)
                rets = fr.rets[nret:]
                if not final or rets:
                    del fr.rets[nret:]
                for b in reversed(lp.breaks):
                    out = self.merge(b.guard, b, out) if out is not None else b
            finally:
                self.loopstack.pop()
                self.guards.pop()
                self.trystack = saved
            return out, cont, brk, info, rets

        slots = []
        for rnd in range(6):
            out, cont, brk, info, rets = run(slots, False)
            if out is None:
                break
            new = self.changed(entry, out, s)
            add_ = [x for x in new if x not in slots]
            if not add_:
                break
            slots = slots + add_
            del self.effects[n_eff:]
            del self.issues[n_iss:]
        else:
            raise Abort("loop fixpoint")
        if out is None:
            # body always leaves (return/raise): treat as executing at most once
            nonempty = boolatom(fn("b:nonempty", *[L for l, L in labels], raw=True)) if labels else truth(cont)
            for g, v, zst, nd in rets:
                fr.rets.append((self.gand(entry.guard, and_(nonempty, g)), v, zst, nd))
            return entry
        first, mask0 = None, mask
        if test is None and len(labels) == 1 and mask is TRUE and (brk is not FALSE or rets):
            first = self.first_event(labels[0], brk, rets, slots, info)
        if first is not None:
            l0, L0 = labels[0]
            ev, some, arg = first
            j = self.fresh(l0, L0)
            T.set_length(j, L0)
            # the iterations up to the one that leaves the loop
            mask = not_(red("any", j, and_(compare("<", lab(j), lab(l0)), subst(ev, {l0: lab(j)})), L0))
            for g, v, zst, nd in rets:
                at = {l0: arg}
                fr.rets.append((self.gand(entry.guard, and_(some, subst(g, at))), self.subst_value(v, at, zst), zst, nd))
                entry.guard = self.gand(entry.guard, not_(and_(some, subst(g, at))))
            brk_any = and_(some, subst(brk, {l0: arg}))
            brk, rets = FALSE, []
        for g, v, zst, nd in rets:
            c = boolatom(fn("b:loopret", string(loopid), raw=True, opq=True))
            fr.rets.append((self.gand(entry.guard, c), v, zst, nd))
        # closed forms
        res = entry
        lcatoms = {}
        for slot in slots:
            for key in info[slot]:
                lcatoms[key] = (slot, info[slot][key])
        upds = {}
        for slot in slots:
            for key, desc in info[slot].items():
                upds[key] = self.slot_value(slot, desc, out)
        simple = test is None and brk is FALSE and not rets
        closed = {}
        L_all = labels
        allkeys = set(upds)
        lcnames = set(upds)

        def mentions(v):
            t = v if isinstance(v, E) else self.term(v, out)
            return {a.d[0] for a in all_atoms(t) if a.kind == "el" and a.d[0] in lcnames}

        recs = {}
        for key, u in upds.items():
            recs[key] = u
        pending = set(upds)
        progress = True
        while simple and progress:
            progress = False
            for key in sorted(pending):
                slot, desc = lcatoms[key]
                r = self.close_reduction(key, desc, upds[key], labels, mask, out, entry, lcnames, closed)
                if r is not None:
                    closed[key] = r
                    pending.discard(key)
                    progress = True
                    continue
        if pending:
            # canonical mu terms
            self.close_mu(pending, lcatoms, upds, cont, brk, labels, mask, out, entry, closed, loopid, s)
        for slot in slots:
            self.store_slot(slot, info[slot], closed, res, entry, out)
        if seq is not None and not closed and False:
            pass
        # loop target remains bound to its last value
        if seq is not None:
            for n in target_names(s.target):
                v = out.env.get(n, UNDEF)
                if isinstance(v, E):
                    res.env[n] = ite(boolatom(fn("b:nonempty", *[L for l, L in labels], raw=True)), self.last(v, labels, mask), entry.env.get(n, UNDEF) if isinstance(entry.env.get(n, UNDEF), E) else UNDEF)
                else:
                    res.env[n] = v
        # names assigned inside the loop but not before it
        for k, v in out.env.items():
            if k not in res.env or (k not in entry.env):
                if isinstance(v, E) and (set(labset) & v.labels or mentions(v)):
                    v2 = self.last(v, labels, mask)
                    v2 = self.replace_lc(v2, closed)
                    res.env[k] = v2
                elif not isinstance(v, E):
                    if k not in res.env:
                        res.env[k] = v
                elif k not in res.env:
                    res.env[k] = v
        for k, o in out.heap.items():
            if k not in res.heap:
                res.heap[k] = self.strip_obj(o, labels, mask, closed)
        if seq is not None and not isinstance(s, ast.While) and s.orelse:
            left = brk_any if first is not None else FALSE if brk is FALSE else boolatom(fn("b:loopbreak", string(loopid), raw=True, opq=True))
            if left is FALSE:
                return self.block(s.orelse, res, fr)
            b = res.copy()
            b.guard = self.gand(res.guard, left)
            res.guard = self.gand(res.guard, not_(left))
            return self.merge(left, b, self.block(s.orelse, res, fr))
        return res

    def first_event(self, label, brk, rets, slots, info):
        """iteration at which a loop is left, when that depends on the iteration only: (leaving condition, is there one, the first)"""
        l, L = label
        ev = or_(brk, *[g for g, v, z, n in rets])
        if rets and slots:
            return None
        if any(not isinstance(v, E) and not (isinstance(v, Tup) and all(isinstance(x, E) for x in v.items)) for g, v, z, n in rets):
            return None
        carried = {k for sl in slots for k in info[sl]}
        dep = lambda e: any(a.kind == "el" and a.d[0] in carried for a in all_atoms(e))
        if dep(ev) or any(dep(v) if isinstance(v, E) else any(dep(x) for x in v.items) for g, v, z, n in rets):
            return None
        some = red("any", l, ev, L)
        arg = red("argmax", l, ite(ev, ONE, ZERO), L)
        return ev, some, arg

    def strip_obj(self, o, labels, mask, closed):
        return o

    def replace_lc(self, v, closed):
        def f(a):
            if a.kind == "el" and a.d[0] in closed:
                c = closed[a.d[0]]
                if isinstance(c, E):
                    return c
                if isinstance(c, tuple) and c[0] == "arr":
                    return subst(c[2], dict(zip(c[1], a.d[1])))
            return None
        return map_atoms(v, f)

    def last(self, v, labels, mask):
        """value in the last iteration"""
        r = v
        for l, L in labels:
            if l in r.labels:
                if mask is TRUE:
                    r = subst(r, {l: sub(L, ONE)})
                else:
                    r = fn("lastof", self.close_label(l, L, ite(mask, r, sym("filtered"))))
        return r

    # slots: ('n', name) | ('h', id) — placeholder installation
    def changed(self, a, b, node):
        out = []
        assigned = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
        tgt = set(target_names(node.target)) if isinstance(node, (ast.For,)) else set()
        for k, v in a.env.items():
            if k in tgt or k.startswith("%"):
                continue
            w = b.env.get(k, UNDEF)
            if not (w is v or (isinstance(v, Ref) and v == w) or (isinstance(v, Tup) and repr(v) == repr(w))):
                out.append(("n", k))
        for k, o in a.heap.items():
            if b.heap.get(k) is not o:
                out.append(("h", k))
        return sorted(out, key=str)

    def install_lc(self, slot, z, entry, loopid, info):
        kind, k = slot
        d = {}
        info[slot] = d
        if kind == "n":
            v = entry.env[k]
            z.env[k] = self.lc_val(v, "%s.%s" % (loopid, k), d, z, entry)
        else:
            o = entry.heap[k]
            z.heap[k] = self.lc_obj(o, "%s.h%d" % (loopid, k), d, z, entry)

    def lc_val(self, v, name, d, z, entry):
        if isinstance(v, E):
            d[name] = ("e", v, None)
            return truth(el(name, [])) if is_boolish(v) else el(name, [])
        if isinstance(v, Ref):
            o = entry.heap[v.id]
            if isinstance(o, Arr) and o.axes is not None:
                no = self.lc_obj(o, name, d, z, entry)
                return self.alloc(z, no)
            d[name] = ("v", v, None)
            return v
        d[name] = ("v", v, None)
        return v

    def lc_obj(self, o, name, d, z, entry):
        if isinstance(o, Arr):
            if o.axes is None:
                d[name] = ("a?", o, None)
                return Arr(None, el(name, []), o.dtype, o.org, o.base, o.line)
            labs = [l for a in o.axes for l, L in self.base_axes(a)]
            d[name] = ("a", o, labs)
            me = el(name, [lab(l) for l in labs], real=False)
            if is_boolish(o.expr):
                me = truth(me)
            if T.has_leaf(o.expr, T.MASKED):
                me = lift("lcmask:" + me.key, lambda x: x if x is T.MASKED else me, o.expr)  # mask is loop-invariant (checked when closing)
            return Arr(o.axes, me, o.dtype, o.org, o.base, o.line)
        if isinstance(o, Lst):
            d[name] = ("l", o, None)
            return LcList(name, o, ())
        if isinstance(o, Dct):
            ent = {}
            for kk, (ke, v) in o.ent.items():
                ent[kk] = (ke, self.lc_val(v, name + "." + show(ke), d, z, entry) if v is not ABSENT else v)
            d[name + ".%"] = ("d", o, None)
            return Dct(ent, o.base, o.org, o.kind)
        if isinstance(o, Ob):
            at = {}
            for kk, v in o.attrs.items():
                at[kk] = self.lc_val(v, name + "." + kk, d, z, entry) if isinstance(v, E) else v
            d[name + ".%"] = ("o", o, None)
            return Ob(o.cls, at, o.org)
        if isinstance(o, MapL):
            d[name] = ("l", o, None)
            return LcList(name, o, ())
        d[name] = ("v", o, None)
        return o

    def slot_value(self, slot, desc, out):
        kind, k = slot
        t = desc[0]
        if kind == "n":
            v = out.env.get(k, UNDEF)
            if t == "a":
                return v
            return v
        return ("heap", k, desc)

    def upd_expr(self, key, desc, u, out):
        """update value of a placeholder as (labels, expr) or None"""
        t = desc[0]
        if isinstance(u, tuple) and u and u[0] == "heap":
            o = out.heap.get(u[1])
            if t in ("a", "a?"):
                if isinstance(o, Arr):
                    if t == "a" and o.axes is not None:
                        return self.unmask(o.expr, desc[1])
                    if t == "a?":
                        return o.expr
                return None
            if t == "l":
                return o
            if t == "e":
                # entry of a dict/object
                if isinstance(o, Dct):
                    for kk, (ke, v) in o.ent.items():
                        if key.endswith("." + show(ke)):
                            return v if isinstance(v, E) else None
                if isinstance(o, Ob):
                    v = o.attrs.get(key.rsplit(".", 1)[1])
                    return v if isinstance(v, E) else None
            return o
        if t == "e":
            if isinstance(u, E):
                return u
            return None
        if t == "a":
            if isinstance(u, Ref) and isinstance(out.heap.get(u.id), Arr):
                o = out.heap[u.id]
                if o.axes is not None and len(o.axes) == len(desc[1].axes):
                    if any(x.label and sub(x.L, y.L) is not ZERO and const_val(sub(x.L, y.L)) is not None for x, y in zip(o.axes, desc[1].axes)):
                        raise Abort("array changes its length inside a loop")
                    return self.unmask(self.align(desc[1].axes, o.axes, o.expr), desc[1])
            return None
        return None

    def unmask(self, e, entry):
        if not T.has_leaf(entry.expr, T.MASKED):
            return e
        f = lambda z: lift("ismasked", lambda x: TRUE if x is T.MASKED else FALSE, z)
        if f(e) is not f(entry.expr):
            raise Abort("mask of a masked array changes inside a loop")
        return T.replace_leaf(e, T.MASKED, ZERO)

    def close_reduction(self, key, desc, u, labels, mask, out, entry, lcnames, closed):
        t = desc[0]
        e = self.upd_expr(key, desc, u, out)
        if t in ("d", "o"):
            return ("skip",)
        if t == "l":
            if isinstance(e, LcList) and e.name == key:
                app = e.items
                if len(app) == 1 and app[0][0] is TRUE or (len(app) == 1):
                    g, v = app[0]
                    m = and_(mask, g)
                    v = self.subst_val(v, closed, out)
                    init = e.init
                    if isinstance(init, Lst):
                        return ("obj", MapL(labels, m, v, init.items))
                return ("obj", MapL(labels, mask, fn("appends", *[self.term(v, out) for g, v in app]), ()))
            return None
        if t == "v":
            return None
        if e is None or not isinstance(e, E):
            return None
        e = self.replace_lc(e, closed)
        others = {a.d[0] for a in all_atoms(e) if a.kind == "el" and a.d[0] in lcnames and a.d[0] != key}
        if others:
            return None
        labs = desc[2] or []
        me = el(key, [lab(l) for l in labs], real=False) if t == "a" else el(key, [])
        if t == "a":
            init = desc[1].expr
        elif t == "a?":
            init = desc[1].expr
        else:
            init = desc[1]
        if isinstance(init, E) and is_boolish(init):
            me = truth(me)
        wrap = (lambda x: ("arr", labs, x)) if t == "a" else (lambda x: x)

        def self_free(x):
            return not any(a.kind == "el" and a.d[0] == key for a in all_atoms(x))

        if e is me:
            return wrap(init)
        if self_free(e):
            if not (set(l for l, L in labels) & e.labels) and mask is TRUE:
                return wrap(ite(boolatom(fn("b:nonempty", *[L for l, L in labels], raw=True)), e, init)) if isinstance(init, E) and t != "a" else wrap(e)
            return wrap(ite(boolatom(fn("b:nonempty", *[L for l, L in labels], raw=True)), self.last(e, labels, mask), init)) if t != "a" else wrap(self.last(e, labels, mask))
        # store pattern: ite(eq0(axis - index)...)
        if t == "a":
            r = self.close_store(key, labs, me, e, labels, mask, init, self_free)
            if r is not None:
                return wrap(r)
        # additive
        try:
            if not is_boolish(e):
                dlt = sub(e, me)
                if self_free(dlt):
                    s = ite(mask, dlt, ZERO)
                    for l, L in reversed(labels):
                        s = red("sum", l, s, L)
                    return wrap(add(init, s))
                q = div(e, me)
                if self_free(q):
                    s = log(ite(mask, q, ONE))
                    for l, L in reversed(labels):
                        s = red("sum", l, s, L)
                    return wrap(mul(init, exp(s)))
        except TooComplex:
            pass
        # max / min
        at = single_atom(e) if e.kind == "poly" else None
        if at is not None and at.kind == "fn" and at.d[0] in ("max", "min") and me in at.d[1]:
            rest = [x for x in at.d[1] if x is not me]
            if all(self_free(x) for x in rest):
                g = minmax(at.d[0], rest)
                for l, L in reversed(labels):
                    g = red(at.d[0], l, g, L)
                return wrap(minmax(at.d[0], [init, g]))
        # boolean accumulation
        if is_boolish(init) if isinstance(init, E) else False:
            mt = truth(me)
            if mt.kind == "ite" and {mt.d[1], mt.d[2]} == {TRUE, FALSE}:
                ta, fa = cofactor(truth(e), mt.d[0], mt.d[1] is TRUE), cofactor(truth(e), mt.d[0], mt.d[1] is FALSE)
                if self_free(ta) and self_free(fa):
                    if ta is TRUE:
                        g = and_(mask, fa)
                        for l, L in reversed(labels):
                            g = red("any", l, g, L)
                        return wrap(or_(init, g))
                    if fa is FALSE:
                        g = or_(not_(mask), ta)
                        for l, L in reversed(labels):
                            g = red("all", l, g, L)
                        return wrap(and_(init, g))
        return None

    def close_store(self, key, labs, me, e, labels, mask, init, self_free):
        """array stores indexed by the loop variables"""
        lset = [l for l, L in labels]
        # collect eq atoms linking axis label and loop label
        link = {}

        def scan(x):
            if x.kind != "ite":
                return
            a = x.d[0]
            if a.kind == "fn" and a.d[0] == "eq0":
                p = a.d[1][0]
                for l in lset:
                    for al in labs:
                        if l in p.labels and al in p.labels:
                            link.setdefault((al, l), a)
            scan(x.d[1])
            scan(x.d[2])
        scan(e)
        if not link:
            return None
        cur = e
        sol = {}
        conds = []
        for (al, l), a in sorted(link.items()):
            p = a.d[1][0]
            # solve for loop label: p = c*(l - f(al)) linear
            co = None
            rest = ZERO
            for m, c in p.d:
                if any(x.kind == "lab" and x.d == l for x, _ in m):
                    if len(m) == 1 and m[0][1] == 1 and co is None:
                        co = c
                    else:
                        return None
                else:
                    rest = add(rest, T._poly({m: c}))
            if co is None or l in rest.labels:
                return None
            s = mul(T._poly({(): T.cmul((-T.F1, T.F0), T.cinv(co))}), rest)
            sol[l] = s
            conds.append(a)
        if set(sol) != set(lset):
            return None
        tv, fv = cur, cur
        for a in conds:
            tv = cofactor(tv, a, True)
        # value when not selected must be unchanged
        nf = cur
        unsel = []
        for i, a in enumerate(conds):
            x = cur
            for b in conds[:i]:
                x = cofactor(x, b, True)
            unsel.append(cofactor(x, a, False))
        if any(x is not me for x in unsel):
            return None
        inr = TRUE
        for l, L in labels:
            s = sol[l]
            # in-range condition: trivially true when s is a plain axis label of the same length
            a1 = single_atom(s)
            if not (a1 is not None and a1.kind == "lab" and T.length(a1.d) is L):
                inr = and_(inr, compare("<=", ZERO, s), compare("<", s, L))
        m2 = subst(mask, sol)
        val = subst(tv, sol)
        if not self_free(val):
            # accumulate into own slot: value may use previous content of this very element
            val = map_atoms(val, lambda a: (init if (a.kind == "el" and a.d[0] == key and list(a.d[1]) == [lab(x) for x in labs]) else None))
            if not self_free(val):
                return None
        return ite(and_(inr, m2), val, init)

    def subst_val(self, v, closed, out):
        if isinstance(v, E):
            return self.replace_lc(v, closed)
        return v

    def close_mu(self, pending, lcatoms, upds, cont, brk, labels, mask, out, entry, closed, loopid, node):
        exprs = {}
        inits = {}
        bools = set()
        masked = {}
        guards = {}
        for key in sorted(pending):
            slot, desc = lcatoms[key]
            e = self.upd_expr(key, desc, upds[key], out)
            if desc[0] in ("d", "o"):
                closed[key] = ("skip",)
                continue
            if not isinstance(e, E):
                try:
                    if desc[0] == "l":
                        e = fn("seq", *([fn("app", g, self.term(v, out)) for g, v in e.items])) if isinstance(e, LcList) else fn("seq?", opq=True)
                    else:
                        u = upds[key]
                        e = self.term(u, out) if not (isinstance(u, tuple)) else fn("heapval", opq=True)
                except Exception:
                    e = fn("updq", opq=True)
            e = self.replace_lc(e, closed)
            labs = desc[2] or []
            if desc[0] == "a":
                e = self.factor_guard(key, desc, e, labels, lcatoms, pending, upds, out, guards)
            b = e
            i = desc[1].expr if desc[0] in ("a", "a?") else (desc[1] if isinstance(desc[1], E) else (self.term(desc[1], entry) if isinstance(desc[1], (Ref, Tup, Phi, Func)) else fn("initobj")))
            for n, l in enumerate(labs):
                b = subst(b, {l: lab("@%d" % n)})
                i = subst(i, {l: lab("@%d" % n)})
            for n, (l, L) in enumerate(labels):
                b = subst(b, {l: lab("@it%d" % n)})
            exprs[key] = b
            inits[key] = T.replace_leaf(i, T.MASKED, ZERO) if i.kind == "ite" else i
            boolv = is_boolish(i)
            if boolv:
                bools.add(key)
            if T.has_leaf(i, T.MASKED):
                masked[key] = lift("ismasked", lambda x: TRUE if x is T.MASKED else FALSE, desc[1].expr)
        cont = self.replace_lc(cont, closed)
        brk = self.replace_lc(brk, closed)
        itm = {l: lab("@it%d" % n) for n, (l, L) in enumerate(labels)}
        mask2 = subst(mask, itm)
        cont = subst(cont, itm)
        brk2 = subst(brk, itm)
        # dependence on index variables of enclosing constructs
        free = set()
        for x in list(exprs.values()) + list(inits.values()) + [cont, brk2, mask2] + [L for l, L in labels]:
            free |= {l for l in x.labels if not l.startswith("@") and not l.startswith("%")}
        free = sorted(free)
        fm = {l: lab("@fr%d" % n) for n, l in enumerate(free)}
        exprs = {k: subst(x, fm) for k, x in exprs.items()}
        inits = {k: subst(x, fm) for k, x in inits.items()}
        cont, brk2, mask2 = subst(cont, fm), subst(brk2, fm), subst(mask2, fm)
        itL = [subst(L, fm) for l, L in labels]
        dom = ",".join(L.key for L in itL) + "|" + mask2.key if labels else ""
        import hashlib
        H = {k: hashlib.md5(("i" + inits[k].key).encode()).hexdigest()[:12] for k in exprs}

        def rep(x):
            return map_atoms(x, lambda a: el("mu" + H[a.d[0]], a.d[1], real=a._real) if a.kind == "el" and a.d[0] in H else None)

        ck = None
        for _ in range(len(exprs) + 2):
            ck = rep(cont).key + rep(brk2).key + dom
            H = {k: hashlib.md5((inits[k].key + rep(exprs[k]).key + ck).encode()).hexdigest()[:12] for k in exprs}
        self.loops.append(dict(id=loopid, node=node, loc=self.loc(node), vars={k: (inits[k], exprs[k], lcatoms[k]) for k in exprs}, cont=cont, brk=brk2, mask=mask2, extents=itL, nfree=len(free), hash=dict(H), rep={k: rep(exprs[k]) for k in exprs}, repcont=rep(cont)))
        for k in H:
            ALL_LOOPS["mu:" + H[k]] = self.loops[-1]
        opq = any(x.opq for x in list(exprs.values()) + [cont])
        for k in exprs:
            slot, desc = lcatoms[k]
            labs = desc[2] or []
            at = el("mu:" + H[k], [lab(l) for l in labs] + [lab(l) for l in free], real=exprs[k]._real if desc[0] != "a" else False, opq=opq)
            if k in bools:
                at = truth(at)
            if k in masked:
                at = ite(masked[k], T.MASKED, at)
            if desc[0] == "a":
                if k in guards:
                    at = ite(guards[k], at, desc[1].expr)
                closed[k] = ("arr", labs, at)
            elif desc[0] in ("e",):
                closed[k] = at
            elif desc[0] == "a?":
                closed[k] = at
            else:
                closed[k] = ("val", at)

    def factor_guard(self, key, desc, e, labels, lcatoms, pending, upds, out, guards):
        """an array only changed at loop-invariant positions: keep the recurrence at those positions"""
        labs = desc[2] or []
        me = el(key, [lab(l) for l in labs], real=False)
        if is_boolish(desc[1].expr) or T.has_leaf(desc[1].expr, T.MASKED):
            return e
        own = {l for l, L in labels}
        for k in pending:
            if k != key:
                x = self.upd_expr(k, lcatoms[k][1], upds[k], out)
                if not isinstance(x, E) or any(a.kind == "el" and a.d[0] == key for a in all_atoms(x)):
                    return e
        if any(a.kind == "el" and a.d[0] == key and list(a.d[1]) != [lab(x) for x in labs] for a in all_atoms(e)):
            return e
        g = TRUE
        conds = {}

        def scan(x):
            if x.kind == "ite":
                conds.setdefault(x.d[0].key, x.d[0])
                scan(x.d[1])
                scan(x.d[2])
        scan(e)
        for a in conds.values():
            if a.kind == "fn" and a.d[0] == "eq0" and not (a.labels & own) and (a.labels & set(labs)) and not any(x.kind == "el" and x.d[0] in lcatoms for x in all_atoms(a)) and cofactor(e, a, False) is me:
                g = and_(g, truth(a))
                e = cofactor(e, a, True)
        if g is not TRUE:
            guards[key] = g
        return e

    def store_slot(self, slot, info, closed, res, entry, out):
        kind, k = slot
        if kind == "n":
            (key, desc), = [(a, b) for a, b in info.items()]
            c = closed.get(key)
            if desc[0] == "a":
                o = desc[1]
                if isinstance(c, tuple) and c[0] == "arr":
                    res.env[k] = self.alloc(res, Arr(o.axes, c[2], o.dtype, frozenset(), None, o.line))
                else:
                    res.env[k] = out.env.get(k, UNDEF)
            elif isinstance(c, E):
                res.env[k] = c
            elif isinstance(c, tuple) and c[0] == "val":
                res.env[k] = c[1]
            else:
                res.env[k] = out.env.get(k, UNDEF)
            return
        o = entry.heap[k]
        if isinstance(o, Arr):
            key = next(iter(info))
            c = closed.get(key)
            if isinstance(c, tuple) and c[0] == "arr":
                res.heap[k] = Arr(o.axes, c[2], o.dtype, o.org, o.base, o.line)
            elif isinstance(c, E):
                res.heap[k] = Arr(o.axes, c, o.dtype, o.org, o.base, o.line)
            self.wthrough(Ref(k), res)
        elif isinstance(o, (Lst, MapL)):
            key = next(iter(info))
            c = closed.get(key)
            if isinstance(c, tuple) and c[0] == "obj":
                res.heap[k] = c[1]
            else:
                res.heap[k] = MapL((), TRUE, c[1] if isinstance(c, tuple) and c[0] == "val" else fn("list?", opq=True), ())
        elif isinstance(o, Dct):
            oo = out.heap[k]
            ent = {}
            for kk, (ke, v) in oo.ent.items():
                hit = [c for key, c in closed.items() if key in info and key.endswith("." + show(ke))]
                if hit and isinstance(hit[0], E):
                    ent[kk] = (ke, hit[0])
                elif isinstance(v, E):
                    ent[kk] = (ke, self.replace_lc(v, closed))
                else:
                    ent[kk] = (ke, v)
            res.heap[k] = Dct(ent, oo.base, oo.org, oo.kind)
        elif isinstance(o, Ob):
            oo = out.heap[k]
            at = {}
            for kk, v in oo.attrs.items():
                hit = [c for key, c in closed.items() if key in info and key.endswith("." + kk)]
                at[kk] = hit[0] if hit and isinstance(hit[0], E) else v
            res.heap[k] = Ob(oo.cls, at, oo.org)
        else:
            res.heap[k] = out.heap[k]

    # ------------------------------------------------------------ iteration
    def take(self, it, st):
        """next element of an iterator (None: it is exhausted)"""
        o = st.heap.get(it.id)
        if not isinstance(o, ItL):
            raise Abort("position of an iterator")
        if not o.items:
            return None
        st.heap[it.id] = ItL(o.items[1:], o.org)
        return o.items[0]

    def iterate(self, it, st):
        """('known', [values]) or ('sym', labels, mask, elemfn, ordinal)"""
        if isinstance(it, Phi):
            return ("sym", ((self.fresh("it", fn("lenof", self.term(it, st))), fn("lenof", self.term(it, st))),), TRUE, lambda z: fn("iter", self.term(it, st), opq=True), None)
        if isinstance(it, Tup):
            return ("known", list(it.items))
        if isinstance(it, RangeV):
            lo, hi, step = const_val(it.lo), const_val(it.hi), const_val(it.step)
            if lo is not None and hi is not None and step is not None and abs((hi - lo) / step) <= 64:
                return ("known", [num(x) for x in range(int(lo), int(hi), int(step))])
            n = sub(it.hi, it.lo)
            if it.step is not ONE:
                n = fn("ceil", div(n, it.step)) if const_val(it.step) is None or abs(const_val(it.step)) != 1 else div(n, it.step)
            # range(len(maplist)): iterate the comprehension's own index
            for o in st.heap.values():
                if isinstance(o, MapL) and len(o.labels) >= 1 and not o.prefix and (len(o.labels) > 1 or o.mask is not TRUE) and self.maplen(o) is n:
                    return ("sym", o.labels, o.mask, lambda z, o=o, n=n: self.ordinal(o.labels, o.mask), None)
            l = self.fresh("i", n)
            e = add(it.lo, mul(it.step, lab(l)))
            return ("sym", ((l, n),), TRUE, lambda z: e, None)
        if isinstance(it, Coords):
            labels = [(l, L) for a in it.axes for l, L in self.base_axes(a)]
            ren = {l: self.fresh("c", L) for l, L in labels}
            mp = {l: sub(sub(L, ONE), lab(ren[l])) if it.back else lab(ren[l]) for l, L in labels}
            mask = subst(it.mask, mp)
            items = [mp[labels[i][0]] if i is not None and i < len(labels) else ZERO for i in it.order]
            labs = tuple((ren[l], L) for l, L in labels)
            if not labs:
                labs = ((self.fresh("one", ONE), ONE),)
            return ("sym", labs, mask, lambda z: Tup(items), None)
        if isinstance(it, Ref):
            o = st.heap[it.id]
            if isinstance(o, Lst):
                if isinstance(o, ItL):
                    st.heap[it.id] = ItL((), o.org)
                if len(o.items) <= 64:
                    return ("known", list(o.items))
            if isinstance(o, Dct):
                if o.base is None:
                    return ("known", [k for k, v in o.ent.values() if v is not ABSENT])
            if isinstance(o, MapL) and not o.prefix:
                ren = {l: self.fresh("m", L) for l, L in o.labels}
                mp = {l: lab(r) for l, r in ren.items()}
                return ("sym", tuple((ren[l], L) for l, L in o.labels), subst(o.mask, mp), lambda z: self.subst_value(o.elem, mp, z), None)
            if isinstance(o, Arr) and o.axes:
                a = o.axes[0]
                n = const_val(a.L)
                if n is not None and n <= 64 and a.mask is TRUE:
                    return ("known", [self.getitem(it, num(i), st, None) for i in range(int(n))])
                ba = self.base_axes(a)
                ren = {l: self.fresh("e", L) for l, L in ba}
                mp = {l: lab(r) for l, r in ren.items()}
                rest = o.axes[1:]
                ex = subst(o.expr, mp)
                mask = subst(a.mask, mp)
                if a.mask is TRUE and a.label and not a.parts and rest:  # an element is a view of the array
                    nl = ren[a.label]

                    def view(z, it=it, nl=nl, o=o, rest=rest, ex=ex):
                        w = z.heap.get(it.id)
                        if isinstance(w, Arr) and w.axes == o.axes:
                            return self.getitem(it, lab(nl), z, None)
                        return self.arr(z, rest, ex)
                    return ("sym", ((nl, ba[0][1]),), TRUE, view, None)
                return ("sym", tuple((ren[l], L) for l, L in ba), mask, lambda z: self.arr(z, rest, ex) if rest else ex, None)
        if isinstance(it, ZipV):
            its = [isinstance(x, Ref) and isinstance(st.heap.get(x.id), ItL) for x in it.items]
            if any(its):  # the same iterator may stand at several places
                seqs = [None if z else self.iterate(x, st) for x, z in zip(it.items, its)]
                if all(q is None or q[0] == "known" for q in seqs):
                    out = []
                    while True:
                        row = []
                        for x, q in zip(it.items, seqs):
                            v = self.take(x, st) if q is None else (q[1][len(out)] if len(out) < len(q[1]) else None)
                            if v is None:
                                return ("known", out)
                            row.append(v)
                        out.append(Tup(row))
            seqs = [self.iterate(x, st) for x in it.items]
            if all(s[0] == "known" for s in seqs):
                n = min(len(s[1]) for s in seqs)
                return ("known", [Tup([s[1][i] for s in seqs]) for i in range(n)])
            syms = [s for s in seqs if s[0] == "sym"]
            base = ([s for s in syms if s[2] is not TRUE] + [s for s in syms if len(s[1]) > 1] + syms)[0]
            fs = []
            for s in seqs:
                if s[0] != "sym":
                    fs.append(lambda z, s=s: fn("zipknown", *[self.term(x, z) for x in s[1]]))
                    continue
                mp = {l2: lab(l1) for (l1, _), (l2, _) in zip(base[1], s[1])} if len(s[1]) == len(base[1]) else None
                if mp is None or subst(s[2], mp) is not base[2]:
                    mp = {s[1][0][0]: self.ordinal(base[1], base[2])} if len(s[1]) == 1 and s[2] is TRUE else None
                if mp is not None:
                    fs.append(lambda z, s=s, mp=mp: self.subst_value(s[3](z), mp, z))
                else:
                    fs.append(lambda z, s=s: fn("zipitem", self.term(s[3](z), z), opq=True))
            return ("sym", base[1], base[2], lambda z: Tup([f(z) for f in fs]), None)
        if isinstance(it, EnumV):
            s = self.iterate(it.it, st)
            if s[0] == "known":
                return ("known", [Tup([add(it.start, num(i)), v]) for i, v in enumerate(s[1])])
            return ("sym", s[1], s[2], lambda z: Tup([add(it.start, self.ordinal(s[1], s[2])), s[3](z)]), None)
        if isinstance(it, ItemsV):
            o = st.heap[it.d.id]
            if isinstance(o, Dct) and o.base is None:
                live = [(k, v) for k, v in o.ent.values() if v is not ABSENT]
                if it.kind == "items":
                    return ("known", [Tup([k, v]) for k, v in live])
                return ("known", [k if it.kind == "keys" else v for k, v in live])
        if isinstance(it, E) and is_str_const(it):
            return ("known", [string(ch) for ch in str_const(it)])
        t = self.term(it, st) if not isinstance(it, E) else it
        n = fn("lenof", t)
        l = self.fresh("it", n)
        return ("sym", ((l, n),), TRUE, lambda z: fn("item", t, lab(l), opq=True), None)

    def lam_mask(self, labels, mask):
        """the selection itself, as a closed term"""
        e = b2n(mask)
        for l, L in reversed(labels):
            e = self.close_label(l, T.length(l), e)
        return e

    def ordinal(self, labels, mask):
        if len(labels) == 1 and mask is TRUE:
            return lab(labels[0][0])
        if mask is not TRUE:
            return fn("mordinal", *([lab(l) for l, L in labels] + [self.lam_mask(labels, mask)]))
        return fn("ordinal", *([lab(l) for l, L in labels] + [L for l, L in labels]))

    def maplen(self, o):
        s = ite(o.mask, ONE, ZERO)
        for l, L in reversed(o.labels):
            s = red("sum", l, s, L)
        return add(s, num(len(o.prefix)))

    def subst_value(self, v, mp, st):
        if isinstance(v, E):
            return subst(v, mp)
        if isinstance(v, Tup):
            its = [self.subst_value(x, mp, st) for x in v.items]
            return Tup(its, v.names, v.cls) if any(a is not b for a, b in zip(its, v.items)) else v
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Arr) and o.expr.labels & mp.keys():
                return self.alloc(st, Arr(o.axes, subst(o.expr, mp), o.dtype, o.org, o.base, o.line))
            if isinstance(o, Lst):
                its = [self.subst_value(x, mp, st) for x in o.items]
                if any(a is not b for a, b in zip(its, o.items)):
                    return self.alloc(st, Lst(its))
            if isinstance(o, Dct):
                ent = {k: (kk, x if x is ABSENT else self.subst_value(x, mp, st)) for k, (kk, x) in o.ent.items()}
                if any(ent[k][1] is not o.ent[k][1] for k in ent):
                    return self.alloc(st, Dct(ent, o.base, o.org, o.kind))
            if isinstance(o, Ob):
                at = {k: self.subst_value(x, mp, st) for k, x in o.attrs.items()}
                if any(at[k] is not o.attrs[k] for k in at):
                    return self.alloc(st, Ob(o.cls, at, o.org))
        if isinstance(v, Phi):
            c, a, b = subst(v.c, mp), self.subst_value(v.a, mp, st), self.subst_value(v.b, mp, st)
            if c is TRUE or c is FALSE:
                return a if c is TRUE else b
            if c is not v.c or a is not v.a or b is not v.b:
                return Phi(c, a, b)
        return v

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                sq = self.iterate(v, st)
                if sq[0] == "known" and len(sq[1]) >= len(t.elts) - 1:
                    j, m = star[0], len(t.elts) - 1 - star[0]
                    it = list(sq[1])
                    k = len(it) - m
                    v = Tup(it[:j] + [self.alloc(st, Lst(it[j:k]))] + it[k:])
            vals = self.unpack(v, len(t.elts), st, t, any(isinstance(x, ast.Starred) for x in t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.setitem(o, self.ev_index(t.slice, st), v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Abort("assign target")

    def unpack(self, v, n, st, node, starred=False):
        if isinstance(v, Tup) or (isinstance(v, Ref) and isinstance(st.heap[v.id], Lst)):
            items = v.items if isinstance(v, Tup) else st.heap[v.id].items
            if len(items) == n:
                return list(items)
            if starred:
                return list(items[:n]) + [fn("star", opq=True)] * max(0, n - len(items))
            self.issue("unpack", "cannot unpack %d values into %d targets" % (len(items), n), st, node)
            self.may_raise(st, TRUE, "ValueError")
            return [fn("unpackfail", num(i), opq=True) for i in range(n)]
        if isinstance(v, Ref) and isinstance(st.heap[v.id], Arr):
            o = st.heap[v.id]
            if o.axes:
                L = o.axes[0].L
                if L is not num(n):
                    self.may_raise(st, not_(eq(L, num(n))), "ValueError")
                return [self.getitem(v, num(i), st, node) for i in range(n)]
        if isinstance(v, WhereIdx):
            return [self.getitem(v, num(i), st, node) for i in range(n)]
        if isinstance(v, Phi):
            a = self.unpack(v.a, n, st, node, starred)
            b = self.unpack(v.b, n, st, node, starred)
            return [self.merge_val(v.c, x, y, st, st, st) for x, y in zip(a, b)]
        if isinstance(v, ZipV) or isinstance(v, EnumV):
            s = self.iterate(v, st)
            if s[0] == "known" and len(s[1]) == n:
                return s[1]
        t = self.term(v, st)
        if isinstance(v, E) and v.kind == "poly" and is_const(v):
            self.issue("unpack", "cannot unpack a number", st, node)
        if v is NONE:
            self.issue("unpack", "cannot unpack None", st, node)
        self.may_raise(st, not_(eq(fn("lenof", t), num(n))), "ValueError")
        return [fn("item", t, num(i)) for i in range(n)]

    def setattr(self, o, name, v, st, node):
        if isinstance(o, Ref):
            ob = st.heap[o.id]
            if isinstance(ob, Ob):
                at = dict(ob.attrs)
                at[name] = v
                st.heap[o.id] = Ob(ob.cls, at, ob.org)
                return
            if isinstance(ob, Arr) and name == "shape":
                r = self.ext("numpy.reshape", [o, v], {}, st, node)
                if isinstance(r, Ref):
                    st.heap[o.id] = st.heap[r.id]
                return
        self.effect(st, "setattr", name, [o, v], node=node)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Abort("expression " + type(n).__name__)
        return m(n, st)

    def ev_index(self, n, st):
        return self.ev(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float, complex)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if isinstance(v, bytes):
            return string(repr(v))
        raise Abort("const")

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def e_Tuple(self, n, st):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                s = self.iterate(v, st)
                if s[0] == "known":
                    out += s[1]
                else:
                    out.append(fn("starred", self.term(v, st), opq=True))
            else:
                v = self.ev(x, st)
                if v is BOTTOM:
                    return BOTTOM
                out.append(v)
        return Tup(out)

    def e_List(self, n, st):
        t = self.e_Tuple(n, st)
        if t is BOTTOM:
            return BOTTOM
        return self.alloc(st, Lst(t.items))

    e_Set = e_List

    def e_Dict(self, n, st):
        ent = {}
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, st)
                if isinstance(o, Ref) and isinstance(st.heap[o.id], Dct):
                    ent.update(st.heap[o.id].ent)
                    base = base or st.heap[o.id].base
                else:
                    base = "**"
                continue
            ke = self.term(self.ev(k, st), st)
            ent[ke.key] = (ke, self.ev(v, st))
        return self.alloc(st, Dct(ent, base))

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Lambda(self, n, st):
        return self.mkfunc(n, st, "<lambda>")

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, st)
                spec = ""
                if v.format_spec is not None:
                    fs = self.e_JoinedStr(v.format_spec, st)
                    spec = str_const(fs) if is_str_const(fs) else show(fs)
                if v.conversion == 114:
                    spec = "!r" + spec
                parts.append(self.fmt(x, spec, st))
        return strcat(parts)

    def fmt(self, x, spec, st):
        t = self.term(x, st)

        def leaf(e):
            if spec in ("", "s", "d"):
                if e.kind == "str":
                    return e
                v = const_val(e) if e.kind == "poly" else None
                if v is not None and v.denominator == 1:
                    return string(str(v))
                if e is NONE:
                    return string("None")
                if e.kind == "bool":
                    return string(str(e.d))
                return strcat([fn("str", e)])
            v = const_val(e) if e.kind == "poly" else None
            if v is not None and v.denominator == 1 and re.fullmatch(r"[+ ]?[<>=^]?0?\d*d?", spec):
                return string(format(int(v), spec))
            if e.kind == "str" and is_str_const(e) and re.fullmatch(r"[<>^]?\d*s?", spec):
                return string(format(str_const(e), spec))
            return strcat([fn("fmt:" + spec, e)])
        return lift("fmt" + spec, leaf, t)

    def e_IfExp(self, n, st):
        c = self.cond(self.ev(n.test, st), st)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        g0 = st.guard
        self.soft += 1
        st.guard = self.gand(g0, c)
        a = self.ev(n.body, st)
        st.guard = self.gand(g0, not_(c))
        b = self.ev(n.orelse, st)
        st.guard = g0
        self.soft -= 1
        return self.merge_val(c, a, b, st, st, st)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], st)
        g0 = st.guard
        for nx in n.values[1:]:
            c = self.cond(v, st)
            if (c is FALSE and isand) or (c is TRUE and not isand):
                st.guard = g0
                return v
            if c is TRUE or c is FALSE:
                v = self.ev(nx, st)
                continue
            st.guard = self.gand(st.guard, c if isand else not_(c))
            self.soft += 1
            w = self.ev(nx, st)
            self.soft -= 1
            bv, bw = self.scalar(v, st), self.scalar(w, st)
            if isinstance(v, E) and isinstance(w, E) and is_boolish(v) and is_boolish(w):
                v = and_(v, w) if isand else or_(v, w)
            elif isand:
                v = self.merge_val(c, w, v if not is_boolish(bv) else FALSE, st, st, st)
            else:
                v = self.merge_val(c, v if not is_boolish(bv) else TRUE, w, st, st, st)
        st.guard = g0
        return v

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        op = type(n.op).__name__
        if op == "Not":
            return not_(truth(self.scalar(v, st)))
        return self.unop(op, v, st)

    def unop(self, op, v, st):
        if isinstance(v, Phi):
            return self.merge_val(v.c, self.unop(op, v.a, st), self.unop(op, v.b, st), st, st, st)
        if op == "USub":
            return self.ew(lambda x: neg(b2n(x)), [v], st)
        if op == "UAdd":
            return v
        if op == "Invert":
            def inv(x):
                if is_boolish(x):
                    return not_(x)
                return lift("invert", lambda z: not_(z) if z.kind == "bool" else fn("invert", z), x)
            return self.ew(inv, [v], st)
        raise Abort("unop")

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        if a is BOTTOM:
            return BOTTOM
        b = self.ev(n.right, st)
        if b is BOTTOM:
            return BOTTOM
        return self.binop(type(n.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if isinstance(a, Phi):
            return self.merge_val(a.c, self.binop(op, a.a, b, st), self.binop(op, a.b, b, st), st, st, st)
        if isinstance(b, Phi):
            return self.merge_val(b.c, self.binop(op, a, b.a, st), self.binop(op, a, b.b, st), st, st, st)
        # strings
        if op == "Mod" and isinstance(a, E) and a.kind == "str":
            return self.pctfmt(a, b, st)
        if op == "Add" and ((isinstance(a, E) and a.kind == "str") or (isinstance(b, E) and b.kind == "str")):
            x, y = self.term(a, st), self.term(b, st)
            return lift("strcat", lambda p, q: strcat([p if p.kind == "str" else strcat([fn("str", p)]), q if q.kind == "str" else strcat([fn("str", q)])]), x, y)
        if op == "Add" and isinstance(a, E) and a.kind == "ite" and all_str(a):
            return lift("strcat", lambda p, q: strcat([p if p.kind == "str" else strcat([fn("str", p)]), q if q.kind == "str" else strcat([fn("str", q)])]), a, self.term(b, st))
        if op == "BitOr" and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.heap[a.id], Dct) and isinstance(st.heap[b.id], Dct):
            r = self.call(Meth(a, "copy"), [], {}, st, self.node)
            self.call(Meth(r, "update"), [b], {}, st, self.node)
            return r
        la, lb = self.aslist(a, st), self.aslist(b, st)
        if op == "Add" and la is not None and lb is not None:
            if isinstance(a, Tup):
                return Tup(la + lb)
            return self.alloc(st, Lst(la + lb))
        if op == "Mult" and (la is not None or lb is not None):
            l, k = (la, b) if la is not None else (lb, a)
            kv = const_val(k) if isinstance(k, E) and k.kind == "poly" else None
            if kv is not None and kv.denominator == 1 and 0 <= kv <= 64:
                items = list(l) * int(kv)
                return Tup(items) if isinstance(a, Tup) or isinstance(b, Tup) else self.alloc(st, Lst(items))
            if isinstance(k, E) and len(l) == 1:
                lb_ = self.fresh("rep", k)
                return self.alloc(st, MapL(((lb_, k),), TRUE, l[0]))
        if op == "Mult" and isinstance(a, E) and a.kind == "str":
            kv = const_val(b) if isinstance(b, E) and b.kind == "poly" else None
            if kv is not None and is_str_const(a):
                return string(str_const(a) * int(kv))
            return strcat([fn("strmul", a, self.term(b, st))])
        if op == "Add" and (isinstance(a, Ref) and isinstance(st.heap[a.id], (MapL, LcList)) or isinstance(b, Ref) and isinstance(st.heap[b.id], (MapL, LcList))):
            return fn("seqconcat", self.term(a, st), self.term(b, st), opq=True)
        if op == "MatMult":
            return self.ext("numpy.matmul", [a, b], {}, st, None)
        f = BINOPS.get(op)
        if f is None:
            raise Abort("binop " + op)
        return self.ew(f, [a, b], st)

    def aslist(self, v, st):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and isinstance(st.heap[v.id], Lst):
            return list(st.heap[v.id].items)
        return None

    def pctfmt(self, a, b, st):
        import re as _re
        vals = list(b.items) if isinstance(b, Tup) else [b]

        def leaf(s):
            parts = []
            i = 0
            for q in s.d:
                if not isinstance(q, str):
                    parts.append(q)
                    continue
                pos = 0
                for m in _re.finditer(r"%(?:%|([-+ 0#]*)(\d*)(?:\.(\d+))?([a-zA-Z]))", q):
                    parts.append(q[pos:m.start()])
                    pos = m.end()
                    if m.group(0) == "%%":
                        parts.append("%")
                        continue
                    spec = m.group(0)[1:]
                    if spec in ("s", "d", "i"):
                        spec = ""
                    if i < len(vals):
                        parts.append(self.fmt(vals[i], spec, st))
                    i += 1
                parts.append(q[pos:])
            if i != len(vals) and not (len(vals) == 1 and not isinstance(b, Tup) and i == 1):
                self.issue("format", "format string expects %d values, got %d" % (i, len(vals)), st)
            return lift_cat(parts)
        return lift("pct%d" % id(vals), leaf, a) if a.kind == "ite" else leaf(a)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st)
            r = self.cmp(type(op).__name__, left, right, st)
            res = r if res is None else self.ew(lambda x, y: and_(x, y), [res, r], st)
            left = right
        return res

    def cmp(self, op, a, b, st):
        if isinstance(a, Phi):
            return self.merge_val(a.c, self.cmp(op, a.a, b, st), self.cmp(op, a.b, b, st), st, st, st)
        if isinstance(b, Phi):
            return self.merge_val(b.c, self.cmp(op, a, b.a, st), self.cmp(op, a, b.b, st), st, st, st)
        if op in ("Is", "IsNot"):
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                r = isnone(x) if isinstance(x, E) else FALSE
            else:
                r = self.cmp("Eq", a, b, st)
            return not_(r) if op == "IsNot" else r
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st)
            return not_(r) if op == "NotIn" else r
        if op in ("Eq", "NotEq") and (not isinstance(a, E) or not isinstance(b, E)):
            la, lb = self.aslist(a, st), self.aslist(b, st)
            if la is not None and lb is not None and not (self.isarr(a, st) or self.isarr(b, st)):
                if len(la) != len(lb):
                    r = FALSE
                else:
                    r = TRUE
                    for x, y in zip(la, lb):
                        r = and_(r, truth(self.scalar(self.cmp("Eq", x, y, st), st)))
                return not_(r) if op == "NotEq" else r
            if (a is NONE or b is NONE) or not (self.isnumlike(a, st) and self.isnumlike(b, st)):
                if a is NONE or b is NONE:
                    r = FALSE
                else:
                    r = eq(self.term(a, st), self.term(b, st))
                return not_(r) if op == "NotEq" else r
        o = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}[op]
        return self.ew(lambda x, y: compare(o, x, y), [a, b], st)

    def isarr(self, v, st):
        return isinstance(v, Ref) and isinstance(st.heap[v.id], Arr)

    def isnumlike(self, v, st):
        return isinstance(v, E) or self.isarr(v, st)

    def contains(self, a, b, st):
        if isinstance(b, Ref):
            o = st.heap[b.id]
            if isinstance(o, Dct):
                return self.d_contains(o, self.term(a, st))
            if isinstance(o, PhiL):
                return self.split_phil(b, st, lambda: self.contains(a, b, st))
            if isinstance(o, Lst):
                r = FALSE
                for x in o.items:
                    r = or_(r, truth(self.scalar(self.cmp("Eq", a, x, st), st)))
                return r
        if isinstance(b, Tup):
            r = FALSE
            for x in b.items:
                r = or_(r, truth(self.scalar(self.cmp("Eq", a, x, st), st)))
            return r
        if isinstance(b, ItemsV) and b.kind == "keys":
            return self.contains(a, b.d, st)
        ta, tb = self.term(a, st), self.term(b, st)
        if is_str_const(ta) and is_str_const(tb):
            return TRUE if str_const(ta) in str_const(tb) else FALSE
        if ta.kind == "str" and tb.kind == "str" and is_str_const(ta) and any(isinstance(q, str) and str_const(ta) in q for q in tb.d):
            return TRUE
        return boolatom(fn("in", ta, tb, raw=True))

    def d_contains(self, d, k):
        k = hkey(d, k)
        r = d.ent.get(k.key)
        if r is not None:
            if r[1] is ABSENT:
                return FALSE
            if isinstance(r[1], Phi):
                return self.present(r[1])
            if isinstance(r[1], E) and has_absent(r[1]):
                return lift("present", lambda x: FALSE if x is ABSENT else TRUE, r[1])
            if isinstance(r[1], E):
                at = single_atom(r[1])
                if at is not None and at.kind == "fn" and d.base is not None and at.d[0] == "opt:" + d.base:
                    return boolatom(fn("in", k, sym(d.base), raw=True))
            return TRUE
        if d.base is None:
            if all(is_str_const(x[0]) for x in d.ent.values()) and is_str_const(k):
                return FALSE
            r = FALSE
            for ke, v in d.ent.values():
                c = eq(k, ke)
                r = or_(r, c)
            return r
        return boolatom(fn("in", k, sym(d.base), raw=True))

    def present(self, v):
        if v is ABSENT:
            return FALSE
        if isinstance(v, Phi):
            return ite(v.c, self.present(v.a), self.present(v.b))
        if isinstance(v, E) and has_absent(v):
            return lift("present", lambda x: FALSE if x is ABSENT else TRUE, v)
        return TRUE

    def e_Attribute(self, n, st):
        v = self.ev(n.value, st)
        if v is BOTTOM:
            return BOTTOM
        return self.getattr(v, n.attr, st, n)

    def getattr(self, v, name, st, node):
        if name == "__dict__" and isinstance(v, Ref) and isinstance(st.heap[v.id], Ob):
            return self.call(Ext("builtins.vars"), [v], {}, st, node)
        if isinstance(v, ModV):
            m = self.repo.modules[v.name]
            r = self.global_(m, name, st)
            if r is not None:
                return r
            sub_ = v.name + "." + name
            if sub_ in self.repo.modules:
                return ModV(sub_)
            self.issue("undefined", sub_, st, node)
            return fn("undefined:" + sub_, opq=True)
        if isinstance(v, Ext):
            return self.ext_value(v.name + "." + name)
        if isinstance(v, Cls):
            f = self.find_method(v, name)
            if f is not None:
                return f[0].method(f[1], None)
            r = self.class_attr(v, name, st)
            if r is not None:
                return r
        if isinstance(v, Phi):
            return self.merge_val(v.c, self.getattr(v.a, name, st, node), self.getattr(v.b, name, st, node), st, st, st)
        if isinstance(v, Tup) and v.names and name in v.names:
            return v.items[v.names.index(name)]
        if isinstance(v, Tup) and v.names and v.cls:
            c = self.clsnode(v.cls)
            f = self.find_method(c, name) if c is not None else None
            if f is not None:
                return self.method_value(f, v, st, node)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, Ob):
                if name in o.attrs:
                    return self.read(o.attrs[name], name, st, node)
                c = self.clsnode(o.cls)
                if c is not None:
                    f = self.find_method(c, name)
                    if f is not None:
                        return self.method_value(f, v, st, node)
                    r = self.class_attr(c, name, st)
                    if r is not None:
                        return r
                if o.cls.startswith("ext:") or ("." + name) in self.hooks:
                    return Meth(v, name)
                self.issue("attribute", "%s has no attribute %s" % (o.cls, name), st, node)
                return fn("noattr:" + name, opq=True)
            if isinstance(o, Arr):
                return self.arr_attr(v, o, name, st, node)
            return Meth(v, name)
        if isinstance(v, E):
            if v.kind == "poly":
                if name == "real":
                    return real(v)
                if name == "imag":
                    return imag(v)
                if name == "value" and (v is C_LIGHT):
                    return v
                if is_const(v) or not self.is_opaque_obj(v):
                    if name in ("shape",):
                        return Tup([])
                    if name in ("size",):
                        return ONE
                    if name == "ndim":
                        return ZERO
                if name in SCALAR_ATTR and not self.is_opaque_obj(v):
                    return Meth(v, name)
            if v.kind == "str" or (v.kind == "ite" and all_str(v)):
                return Meth(v, name)
            return AttrE(self, v, name)
        return Meth(v, name)

    def method_value(self, f, v, st, node):
        m = f[0].method(f[1], v)
        if any(dec_name(d) in ("property", "cached_property") for d in f[1].decorator_list):
            return self.call(m, [], {}, st, node)
        return m

    def class_attr(self, c, name, st):
        for b in c.node.body:
            for t in getattr(b, "targets", [getattr(b, "target", None)]) if isinstance(b, (ast.Assign, ast.AnnAssign)) else ():
                if isinstance(t, ast.Name) and t.id == name and b.value is not None:
                    return self.ev_default(Func(c.mod.tree, c.mod, c.qual), b.value, st)
        for base in c.node.bases:
            if isinstance(base, ast.Name):
                r = self.global_(c.mod, base.id, self.new_state())
                if isinstance(r, Cls):
                    v = self.class_attr(r, name, st)
                    if v is not None:
                        return v
        return None

    def is_opaque_obj(self, v):
        return True if v.kind != "poly" else any(a.kind == "fn" and (a.d[0].startswith(("item", "attr:", "ext:", "m:", "opt:")) or a.opq) or a.kind == "sym" and a.d[0].startswith("obj:") for a in atoms_of(v))

    def clsnode(self, q):
        mod, _, name = q.rpartition(".")
        m = self.repo.modules.get(mod)
        if q in self.localcls:
            return self.localcls[q]
        if m and name in m.classes:
            return Cls(m.classes[name], m, q)
        return None

    def find_method(self, c, name, seen=()):
        for b in c.node.body:
            if isinstance(b, ast.FunctionDef) and b.name == name:
                return c, b
        for base in c.node.bases:
            if isinstance(base, ast.Name):
                r = self.global_(c.mod, base.id, self.new_state())
                if isinstance(r, Cls):
                    f = self.find_method(r, name)
                    if f:
                        return f
        return None

    def e_Subscript(self, n, st):
        v = self.ev(n.value, st)
        if v is BOTTOM:
            return BOTTOM
        k = self.ev_index(n.slice, st)
        return self.getitem(v, k, st, n)

    def e_Slice(self, n, st):
        return SliceV(*[self.ev(x, st) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_ExtSlice(self, n, st):
        return Tup([self.ev(d, st) for d in n.dims])

    def e_Index(self, n, st):
        return self.ev(n.value, st)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        g = st.env.get("%gen")
        if g is None:
            raise Abort("yield")
        if v is not BOTTOM:
            self.call(Meth(g, "append"), [v], {}, st, n)
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        g = st.env.get("%gen")
        if g is None:
            raise Abort("yield")
        if v is not BOTTOM:
            self.call(Meth(g, "extend"), [v], {}, st, n)
        return NONE

    def e_FormattedValue(self, n, st):
        return self.fmt(self.ev(n.value, st), "", st)

    # comprehensions
    def e_ListComp(self, n, st):
        return self.comp_(n, st, lambda z: self.ev(n.elt, z), "list")

    def e_GeneratorExp(self, n, st):
        r = self.comp_(n, st, lambda z: self.ev(n.elt, z), "list")
        if isinstance(r, Ref) and type(st.heap[r.id]) is Lst:
            st.heap[r.id] = ItL(st.heap[r.id].items, st.heap[r.id].org)
        return r

    def e_SetComp(self, n, st):
        return self.comp_(n, st, lambda z: self.ev(n.elt, z), "list")

    def e_DictComp(self, n, st):
        r = self.comp_(n, st, lambda z: Tup([self.ev(n.key, z), self.ev(n.value, z)]), "dict")
        return r

    def comp_(self, *args):
        self.soft += 1
        r = self.comp(*args)
        self.soft -= 1
        return r

    def comp(self, n, st, f, kind):
        env0 = dict(st.env)
        sym_labels = []
        symmask = [TRUE]

        def rec(gi):
            if gi == len(n.generators):
                return [f(st)]
            g = n.generators[gi]
            it = self.ev(g.iter, st)
            lazy = isinstance(it, Ref) and isinstance(st.heap.get(it.id), ItL)
            s = ("known", st.heap[it.id].items) if lazy else self.iterate(it, st)
            out = []
            if s[0] == "known":
                for v in s[1]:
                    if lazy:
                        v = self.take(it, st)
                        if v is None:
                            break
                    self.assign(g.target, v, st)
                    ok = TRUE
                    for c in g.ifs:
                        ok = and_(ok, truth(self.scalar(self.ev(c, st), st)))
                    if ok is FALSE:
                        continue
                    if ok is not TRUE:
                        out.append(fn("maybe", ok, *[self.term(x, st) for x in rec(gi + 1)], opq=True))
                        continue
                    out += rec(gi + 1)
                return out
            sym_labels.extend(s[1])
            symmask[0] = and_(symmask[0], s[2])
            self.loopstack.append(("comp", tuple(l for l, L in s[1])))
            try:
                self.assign(g.target, s[3](st), st)
                for c in g.ifs:
                    symmask[0] = and_(symmask[0], truth(self.scalar(self.ev(c, st), st)))
                r = rec(gi + 1)
            finally:
                self.loopstack.pop()
            if len(r) == 1:
                return r
            return [fn("multi", *[self.term(x, st) for x in r], opq=True)]
        items = rec(0)
        for k in list(st.env):
            if k not in env0:
                del st.env[k]
        for k, v in env0.items():
            st.env[k] = v
        if kind == "dict":
            if sym_labels:
                return fn("dictcomp", *[self.term(x, st) for x in items])
            ent = {}
            for t in items:
                if isinstance(t, Tup):
                    k = self.term(t.items[0], st)
                    ent[k.key] = (k, t.items[1])
            return self.alloc(st, Dct(ent))
        if sym_labels:
            return self.alloc(st, MapL(sym_labels, symmask[0], items[0]))
        return self.alloc(st, Lst(items))

    # ------------------------------------------------------------ elementwise helpers
    def num(self, v, st):
        """(axes, expr) of a numeric value"""
        if isinstance(v, E):
            return (), v
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, Arr):
                return o.axes, o.expr
            if isinstance(o, Lst):
                return self.seq_num(o.items, st)
            if isinstance(o, MapL) and isinstance(o.elem, E):
                if len(o.labels) == 1 and not o.prefix:
                    l, L = o.labels[0]
                    return (Ax(l, L if o.mask is TRUE else self.maplen(o), None, o.mask),), o.elem
            if isinstance(o, MapL) and isinstance(o.elem, E) and not o.prefix and len(o.labels) > 1 and o.mask is TRUE:
                return (Ax(None, self.maplen(o), tuple(Ax(l, L, None, TRUE) for l, L in o.labels), TRUE),), o.elem
            if isinstance(o, MapL) and not o.prefix and len(o.labels) == 1:
                l, L = o.labels[0]
                axes, e = self.num(o.elem, st)
                if axes is not None and e.kind != "none":
                    return (Ax(l, L if o.mask is TRUE else self.maplen(o), None, o.mask),) + tuple(axes), e
            return (), self.term(v, st)
        if isinstance(v, Tup):
            return self.seq_num(v.items, st)
        if isinstance(v, Phi):
            a, ea = self.num(v.a, st)
            b, eb = self.num(v.b, st)
            if a is not None and b is not None and len(a) == len(b) and all(self.same_len(x, y) for x, y in zip(a, b)):
                return a, ite(v.c, ea, self.align(a, b, eb))
            if a == ():
                return b, ite(v.c, ea, eb)
            if b == ():
                return a, ite(v.c, ea, eb)
            return None, ite(v.c, ea, eb)
        if isinstance(v, RangeV):
            n = div(sub(v.hi, v.lo), v.step)
            l = self.fresh("i", n)
            return (ax(l, n),), add(v.lo, mul(v.step, lab(l)))
        return (), self.term(v, st)

    def seq_num(self, items, st):
        n = len(items)
        sub_ = [self.num(x, st) for x in items]
        if n == 0:
            return (Ax(self.fresh("z", ZERO), ZERO, None, TRUE),), ZERO
        if any(a is None for a, e in sub_):
            return None, fn("stack", *[e for a, e in sub_])
        k = len(sub_[0][0])
        if any(len(a) != k for a, e in sub_):
            return None, fn("stack", *[self.close_axes(a, e) for a, e in sub_])
        base = sub_[0][0]
        es = [sub_[0][1]] + [self.align(base, a, e) for a, e in sub_[1:]]
        if n == 1:
            return (ONE_AX,) + tuple(base), es[0]
        L = num(n)
        l = self.fresh("k", L)
        r = es[-1]
        for i in range(n - 2, -1, -1):
            r = ite(eq(lab(l), num(i)), es[i], r)
        return (ax(l, L),) + tuple(base), r

    def bcast(self, vals, st):
        """broadcast numeric values; returns (axes, [exprs])"""
        parts = [self.num(v, st) for v in vals]
        if any(a is None for a, e in parts):
            return None, [e for a, e in parts]
        nd = max(len(a) for a, e in parts)
        axes = [None] * nd
        exprs = []
        used = {}
        order = sorted(range(len(parts)), key=lambda i: all(x.mask is TRUE for x in parts[i][0]))
        exprs = [None] * len(parts)
        for which in order:
            a, e = parts[which]
            off = nd - len(a)
            mp = {}
            for i, x in enumerate(a):
                pos = off + i
                cur = axes[pos]
                if cur is None or (cur.label is None and cur.parts is None):
                    # adopt, avoiding duplicate labels at another position
                    nx = x
                    if x.label is not None or x.parts:
                        nx = self.dedupe(x, used, pos, mp)
                    if cur is None or nx.label is not None or nx.parts:
                        axes[pos] = nx
                elif x.label is not None or x.parts:
                    self.unify_ax(cur, x, mp)
                    if len(self.base_axes(cur)) < len(self.base_axes(x)):
                        pass
            exprs[which] = subst(e, mp) if mp else e
        return tuple(axes), exprs

    def dedupe(self, x, used, pos, mp):
        if x.parts:
            ps = tuple(self.dedupe(p, used, pos, mp) for p in x.parts)
            return Ax(x.label, x.L, ps, x.mask)
        l = x.label
        if l in used and used[l] != pos:
            nl = self.fresh(l, x.L)
            mp[l] = lab(nl)
            used[nl] = pos
            return Ax(nl, x.L, None, subst(x.mask, {l: lab(nl)}))
        if l is not None:
            used[l] = pos
        return x

    def ew(self, f, vals, st, dtype=None):
        for i, v in enumerate(vals):
            if isinstance(v, Phi):
                a, b = list(vals), list(vals)
                a[i], b[i] = v.a, v.b
                return self.merge_val(v.c, self.ew(f, a, st), self.ew(f, b, st), st, st, st)
        if all(isinstance(v, E) for v in vals):
            return f(*vals)
        axes, es = self.bcast(vals, st)
        # elementwise ops keep the length of a masked axis
        return self.arr(st, axes, f(*es), dtype)

    def scalar(self, v, st):
        """E for a scalar use (conditions etc.)"""
        if isinstance(v, E):
            return v
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, Arr):
                if o.axes is not None and all(a.label is None and not a.parts for a in o.axes):
                    return o.expr
                return fn("arrval", self.term(v, st))
            if isinstance(o, Lst):
                return TRUE if o.items else FALSE
            if isinstance(o, Dct):
                if o.base is None:
                    return TRUE if any(x[1] is not ABSENT for x in o.ent.values()) else FALSE
                return TRUE if o.ent else boolatom(fn("b:nonempty", sym(o.base), raw=True))
            if isinstance(o, MapL):
                return not_(eq(self.maplen(o), ZERO))
            return TRUE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Phi):
            return ite(v.c, self.scalar(v.a, st), self.scalar(v.b, st))
        if isinstance(v, (Func, Cls, Ext, ModV, Meth)):
            return TRUE
        return self.term(v, st)

    # ------------------------------------------------------------ indexing
    def getitem(self, v, k, st, node):
        r = self.getitem_(v, k, st, node)
        if isinstance(r, E) and r.kind == "ite" and T.has_leaf(r, T.MASKED):
            r = T.drop_leaf(r, T.MASKED)  # an element of a masked array that is used is unmasked
        return r

    def getitem_(self, v, k, st, node):
        if isinstance(v, Phi):
            return self.merge_val(v.c, self.getitem(v.a, k, st, node), self.getitem(v.b, k, st, node), st, st, st)
        if isinstance(v, Tup):
            return self.seq_get(v.items, k, st, node, lambda it: Tup(it))
        if isinstance(v, Coords) and isinstance(k, Tup) and len(k.items) == 2 and isinstance(k.items[0], SliceV) and all(x is None or x is NONE for x in (k.items[0].lo, k.items[0].hi, k.items[0].step)):
            kv = const_val(k.items[1]) if isinstance(k.items[1], E) and k.items[1].kind == "poly" else None
            c = self.coord_column(v.axes, v.mask, v.order, int(kv), v.back, st) if kv is not None else None
            if c is not None:
                return c
        if isinstance(v, WhereIdx):
            kv = const_val(k) if isinstance(k, E) and k.kind == "poly" else None
            if kv is not None:
                if len(v.axes) == 1:
                    a = v.axes[0]
                    n = self.count([a], v.mask)
                    if a.label is None:
                        return fn("whereidx", v.mask, k, opq=True)
                    return self.alloc(st, Arr((Ax(a.label, n, None, v.mask),), self.ordinal([(a.label, a.L)], a.mask) if not a.parts else fn("whereidx", self.close_axes(v.axes, v.mask), k, lab(a.label), opq=True)))
                c = self.coord_column(v.axes, v.mask, list(range(len(v.axes))), int(kv), False, st)
                if c is not None:
                    return c
                return self.alloc(st, Arr((Ax("w~" + v.mask.key, self.count(v.axes, v.mask), None, TRUE),), fn("whereidx", self.close_axes(v.axes, v.mask), k, lab("w~" + v.mask.key))))
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, Lst):
                return self.seq_get(o.items, k, st, node, lambda it: self.alloc(st, Lst(it)))
            if isinstance(o, LcList):
                return fn("lcitem", string(o.name), self.term(k, st), opq=True)
            if isinstance(o, MapL):
                return self.map_get(o, k, st, node)
            if isinstance(o, Dct):
                return self.d_get(v, o, k, st, node)
            if isinstance(o, Arr):
                return self.arr_get(v, o, k, st, node)
            if isinstance(o, PhiL):
                return fn("item", fn("phil", o.c), self.term(k, st), opq=True)
            if isinstance(o, Ob):
                return fn("item", self.term(v, st), self.term(k, st))
        if isinstance(v, Ext) and v.name in ("numpy.mgrid", "numpy.ogrid") and isinstance(k, Tup) and all(isinstance(x, SliceV) and x.lo in (None, ZERO) and x.hi is not None and x.step in (None, ONE) for x in k.items) and v.name == "numpy.mgrid":
            return self.ext("numpy.indices", [Tup([self.scalar(x.hi, st) for x in k.items])], {}, st, node)
        if isinstance(v, Ext) and v.name in ("numpy.r_", "numpy.c_"):
            from . import npmodel
            return npmodel.joined(self, v.name, k, st, node)
        if isinstance(v, E) and (v.kind == "str" or v.kind == "ite" and all_str(v)):
            if is_str_const(v):
                s = str_const(v)
                try:
                    if isinstance(k, E):
                        return string(s[int(const_val(k))])
                    if isinstance(k, SliceV):
                        g = lambda x: None if x is None else int(const_val(x))
                        return string(s[g(k.lo):g(k.hi):g(k.step)])
                except (TypeError, IndexError):
                    pass
            return strcat([fn("substr", v, self.term(k, st))])
        if isinstance(v, E) and v.kind == "ite" and not is_boolish(v):
            return lift("getitem%s" % self.term(k, st).key, lambda x: fn("item", x, self.term(k, st)), v)
        if v is NONE:
            self.issue("subscript", "subscripting None", st, node)
        t = self.term(v, st)
        r = fn("item", t, self.term(k, st))
        return r

    def count(self, axes, mask):
        s = ite(mask, ONE, ZERO)
        for a in reversed(axes):
            for l, L in reversed(self.base_axes(a)):
                s = red("sum", l, s, L)
        return s

    def coord_column(self, axes, mask, order, k, back, st):
        """the k-th coordinate of every selected element"""
        if any(a.mask is not TRUE or a.parts for a in axes) or not -len(order) <= k < len(order):
            return None
        base = [(l, L) for a in axes for l, L in self.base_axes(a)]
        mp = {l: sub(sub(L, ONE), lab(l)) for l, L in base} if back else {}
        m = subst(mask, mp)
        a = axes[k]
        e = ZERO if a.label is None else sub(sub(a.L, ONE), lab(a.label)) if back else lab(a.label)
        if not base:
            return None
        parts = tuple(a for a in axes if a.label)
        n = self.count(parts, mask)
        x = Ax(base[0][0], n, None, m) if len(parts) == 1 else Ax("#".join(l for l, L in base), n, parts, m)
        return self.alloc(st, Arr((x,), e))

    def seq_get(self, items, k, st, node, mk_):
        if isinstance(k, E):
            kv = const_val(k) if k.kind == "poly" else (1 if k is TRUE else 0 if k is FALSE else None)
            if kv is not None:
                i = int(kv)
                if -len(items) <= i < len(items):
                    return items[i]
                self.issue("index", "index %d out of range for %d items" % (i, len(items)), st, node)
                self.certain(st, "IndexError", node)
                return fn("outofrange", opq=True)
            if items and k.kind == "poly":
                if all(isinstance(x, E) for x in items):
                    r = fn("item", fn("tuple", *items), k)
                    return r
            return fn("item", fn("tuple", *[self.term(x, st) for x in items]), self.term(k, st))
        if isinstance(k, SliceV):
            g = lambda x: None if x is None else (int(const_val(x)) if isinstance(x, E) and x.kind == "poly" and const_val(x) is not None else "?")
            a, b, c = g(k.lo), g(k.hi), g(k.step)
            if k.lo is NONE:
                a = None
            if k.hi is NONE:
                b = None
            if "?" not in (a, b, c):
                return mk_(items[a:b:c])
        return fn("item", fn("tuple", *[self.term(x, st) for x in items]), self.term(k, st))

    def map_get(self, o, k, st, node):
        if isinstance(k, E) and k.kind == "poly":
            at = single_atom(k)
            if o.prefix:
                return fn("item", fn("maplist", *[self.term(x, st) for x in o.prefix]), k, opq=True)
            n = len(o.labels)
            if at is not None and at.kind == "fn" and (at.d[0] == "mordinal" and len(at.d[1]) == n + 1 and at.d[1][n] is self.lam_mask(o.labels, o.mask) or at.d[0] == "ordinal" and o.mask is TRUE and len(at.d[1]) == 2 * n
                                                       and all(a is L for a, (l, L) in zip(at.d[1][n:], o.labels))):
                mp = {l: i for (l, L), i in zip(o.labels, at.d[1])}
                return self.subst_value(o.elem, mp, st)
            if o.mask is TRUE:
                kv = const_val(k)
                idx = k if kv is None or kv >= 0 else add(self.maplen(o), k)
                mp = {}
                for l, L in reversed(o.labels[1:]):
                    mp[l] = _mod(idx, L)
                    idx = _floordiv(idx, L)
                mp[o.labels[0][0]] = idx
                return self.subst_value(o.elem, mp, st)
        if isinstance(k, SliceV) and o.mask is TRUE and not o.prefix and len(o.labels) == 1:
            l, L = o.labels[0]
            na, idx = self.slice_ax(ax(l, L), k, st)
            if na is not ONE_AX and na.label:
                return self.alloc(st, MapL(((na.label, na.L),), TRUE, self.subst_value(o.elem, {l: idx}, st)))
            if na is ONE_AX:
                return self.alloc(st, Lst([self.subst_value(o.elem, {l: idx}, st)]))
        b = self.term(o.elem, st)
        for l, L in reversed(o.labels):
            b = self.close_label(l, L, ite(o.mask, b, sym("filtered")))
        return fn("item", fn("maplist", b), self.term(k, st))

    def d_get(self, ref, d, k, st, node):
        ke = hkey(d, self.term(k, st))
        if ke.kind == "ite":
            r = None
            a = self.d_get(ref, d, ke.d[1], st, node)
            b = self.d_get(ref, d, ke.d[2], st, node)
            return self.merge_val(boolatom(ke.d[0]), a, b, st, st, st)
        r = d.ent.get(ke.key)
        pres = self.d_contains(d, ke)
        if pres is not TRUE:
            self.may_raise(st, not_(pres), "KeyError")
            self.effect(st, "getkey", show(ke), [ref, ke, pres], node=node)
        if r is None or r[1] is ABSENT:
            if d.base is None:
                if pres is FALSE:
                    if not self.trystack:
                        self.issue("key", "missing key %s" % show(ke), st, node)
                    self.certain(st, "KeyError", node)
                # symbolic key against known entries
                if not is_str_const(ke) and d.ent:
                    out = None
                    for kk, v in d.ent.values():
                        out = v if out is None else self.merge_val(eq(ke, kk), v, out, st, st, st)
                    return out
                return fn("nokey", ke, opq=True)
            return fn("opt:" + d.base, ke)
        v = r[1]
        if isinstance(v, E) and has_absent(v):
            return drop_absent(v)
        if isinstance(v, Phi) and (v.a is ABSENT or v.b is ABSENT):
            return v.b if v.a is ABSENT else v.a
        return v

    def norm_index(self, k, L):
        kv = const_val(k)
        if kv is not None and kv < 0:
            return add(L, k)
        return k

    def slice_ax(self, a, s, st):
        """slice a labelled axis -> (new Ax, index expr for the old label, offset info)"""
        g = lambda x: None if (x is None or x is NONE) else self.scalar(x, st)
        lo, hi, step = g(s.lo), g(s.hi), g(s.step)
        L = a.L
        if step is None:
            step = ONE
        sv = const_val(step)
        if sv is not None and sv < 0:
            if lo is None and hi is None:
                n = L if sv == -1 else fn("ceil", div(L, neg(step)))
                nl = self.fresh(a.label, n)
                return ax(nl, n), sub(sub(L, ONE), mul(neg(step), lab(nl)))
            n = fn("slicelen", *( [x if x is not None else NONE for x in (lo, hi)] + [step, L]))
            nl = self.fresh(a.label, n)
            start = lo if lo is not None else sub(L, ONE)
            return ax(nl, n), add(self.norm_index(start, L), mul(step, lab(nl)))
        def norm(x):
            if x.kind == "poly":
                v = const_val(x)
                if v is not None:
                    return add(L, x) if v < 0 else x
                if nonneg(x) or self.under_guard_nonneg(x, st):
                    return x
                if nonneg(neg(x)):
                    return add(L, x)
            return fn("wrap", x, L)
        if lo is None or lo is ZERO:
            lo2 = ZERO
        else:
            lo2 = lift("normlo", norm, lo)
        if hi is None:
            hi2 = L
        else:
            hi2 = lift("normhi", norm, hi)
            v = const_val(hi2) if hi2.kind == "poly" else None
            lv = const_val(L)
            if v is not None and lv is not None and v > lv:
                hi2 = L
        if lo2 is ZERO and hi2 is L and step is ONE:
            return a, lab(a.label)
        n = sub(hi2, lo2)
        if step is not ONE:
            n = fn("ceil", div(n, step))
        if n is ONE and step is ONE and const_val(lo2) is not None:  # one element: a unit axis
            return ONE_AX, lo2
        nl = self.fresh(a.label, n)
        return ax(nl, n), add(lo2, mul(step, lab(nl)))

    def under_guard_nonneg(self, x, st):
        try:
            return and_(self.abs_guard(st), compare("<", x, ZERO)) is FALSE
        except TooComplex:
            return False

    def arr_get(self, ref, o, k, st, node):
        if o.axes is None:
            return fn("item", o.expr, self.term(k, st))
        keys = list(k.items) if isinstance(k, Tup) else [k]
        # boolean mask covering several axes / whole-array
        if len(keys) == 1 and isinstance(keys[0], WhereIdx):
            return self.mask_get(o, keys[0].axes, keys[0].mask, st)
        nel = sum(1 for x in keys if not (x is NONE or x is ELLIPSIS))
        for x in keys:
            if isinstance(x, Ref) and isinstance(st.heap[x.id], Arr):
                xo = st.heap[x.id]
                if is_boolish(xo.expr) and xo.axes is not None:
                    nel += len(xo.axes) - 1
            if isinstance(x, WhereIdx):
                nel += len(x.axes) - 1
        out_axes = []
        mp = {}
        pos = 0
        allslices = True
        n = len(o.axes)
        seen_ell = ELLIPSIS in keys
        expr = o.expr
        extra_fancy = None
        fancy_axes = None
        for x in keys:
            if x is NONE:
                out_axes.append(ONE_AX)
                continue
            if x is ELLIPSIS:
                m = n - nel
                for i in range(m):
                    out_axes.append(o.axes[pos + i])
                pos += m
                continue
            if pos >= n:
                self.issue("index", "too many indices", st, node)
                self.certain(st, "IndexError", node)
                return fn("badindex", opq=True)
            a = o.axes[pos]
            if isinstance(x, SliceV):
                if a.label is None and not a.parts:
                    lo, hi = [None if q is None or q is NONE else self.term(q, st) for q in (x.lo, x.hi)]
                    clo, chi = [None if q is None else const_val(q) for q in (lo, hi)]
                    if lo is None and hi is None or (lo is None or clo is not None and clo <= 0) and (hi is None or chi is not None and chi >= 1):
                        out_axes.append(a)
                    elif clo is not None and clo >= 1 or chi is not None and (chi == 0 or chi < 0):
                        z = "empty0"
                        T.set_length(z, ZERO)
                        out_axes.append(Ax(z, ZERO, None, TRUE))
                    elif lo is not None and clo is None or hi is not None and chi is None:
                        return fn("item", self.term(ref, st), self.term(k, st))
                    else:
                        out_axes.append(a)
                    pos += 1
                    continue
                if a.parts:
                    if all(q is None or q is NONE for q in (x.lo, x.hi, x.step)):
                        out_axes.append(a)
                    else:
                        return fn("item", self.term(ref, st), self.term(k, st), opq=True)
                    pos += 1
                    continue
                if a.mask is not TRUE and not all(q is None or q is NONE for q in (x.lo, x.hi, x.step)):
                    return fn("item", self.term(ref, st), self.term(k, st))
                na, idx = self.slice_ax(a, x, st)
                out_axes.append(na)
                if na is not a:
                    mp[a.label] = idx
                pos += 1
                continue
            allslices = False
            if isinstance(x, Ref) and isinstance(st.heap[x.id], (Arr, Lst, MapL)) or isinstance(x, WhereIdx):
                if isinstance(x, WhereIdx):
                    xa, xe = x.axes, x.mask
                    isb = True
                else:
                    xa, xe = self.num(x, st)
                    isb = is_boolish(xe)
                if xa is None:
                    return fn("item", self.term(ref, st), self.term(k, st))
                if isb:
                    covered = o.axes[pos:pos + len(xa)]
                    m2 = and_(self.align(covered, xa, xe), *[c.mask for c in covered])
                    cnt = self.count(covered, m2)
                    if len(covered) == 1 and not covered[0].parts and covered[0].label:
                        out_axes.append(Ax(covered[0].label, cnt, None, m2))
                    else:
                        ps = tuple(p for p in covered)
                        out_axes.append(Ax("#".join(l for c in covered for l, L in self.base_axes(c)) or None, cnt, ps, m2))
                    pos += len(xa)
                    continue
                # integer fancy index
                if a.label is None:
                    out_axes.extend(xa)
                    pos += 1
                    continue
                if a.parts:
                    return fn("item", self.term(ref, st), self.term(k, st), opq=True)
                if a.mask is not TRUE:
                    at = single_atom(xe) if xe.kind == "poly" else None
                    if at is None or at.kind != "fn" or at.d[0] != "mordinal" or len(at.d[1]) != 2 or at.d[1][1] is not self.lam_mask([(a.label, a.L)], a.mask):
                        return fn("item", self.term(ref, st), self.term(k, st), opq=True)
                    xe = at.d[1][0]
                if fancy_axes is None:
                    fancy_axes = xa
                    out_axes.extend(xa)
                    mp[a.label] = xe
                else:
                    mp[a.label] = self.align(fancy_axes, xa, xe)
                pos += 1
                continue
            # scalar index
            xe = self.scalar(x, st)
            kv = const_val(xe) if xe.kind == "poly" else None
            if kv is not None and a.mask is TRUE and not a.parts:
                n_ = 1 if a.label is None else const_val(a.L)
                if n_ is not None and not -n_ <= kv < n_:
                    self.issue("index", "index %d out of range for %d elements" % (kv, n_), st, node)
                    self.certain(st, "IndexError", node)
            if a.label is None and not a.parts:
                pos += 1
                continue
            if a.parts:
                rem = xe
                bl = self.base_axes(a)
                for l, L in reversed(bl[1:]):
                    mp[l] = _mod(rem, L)
                    rem = _floordiv(rem, L)
                mp[bl[0][0]] = rem
                pos += 1
                continue
            if a.mask is not TRUE:
                rest_axes = o.axes[pos + 1:]
                if n == 1:
                    nm = {0: "firstof", -1: "lastof"}.get(const_val(xe))
                    body = self.close_label(a.label, T.length(a.label), ite(a.mask, o.expr, sym("filtered")))
                    return fn(nm, body) if nm else fn("nthof", body, xe)
                return fn("item", self.term(ref, st), self.term(k, st))
            idx = self.norm_index(xe, a.L) if xe.kind == "poly" else xe
            mp[a.label] = idx
            pos += 1
        out_axes.extend(o.axes[pos:])
        try:
            ex = subst(expr, mp) if mp else expr
        except TooComplex:
            return fn("item", self.term(ref, st), self.term(k, st))
        if not out_axes:
            return ex
        org = o.org if (allslices or all(not (isinstance(x, Ref)) for x in keys)) else frozenset()
        base = None
        if org or True:
            if not any(isinstance(x, (Ref, WhereIdx)) for x in keys):
                base = (ref.id, lambda z, a_, b_, axes=o.axes, mp=mp, oa=tuple(out_axes): self.write_view(a_, b_, mp, oa))
        # dedupe labels among out_axes
        return self.alloc(st, Arr(tuple(out_axes), ex, o.dtype, org, base, o.line))

    def write_view(self, a, b, mp, oa):
        """new expression of base array b after its view a was modified"""
        # invert idx maps: each old label l = c + lab(nl) or a constant index
        inv = {}
        cond = TRUE
        for l, idx in mp.items():
            nls = [x for x in idx.labels if any(ax_.label == x for ax_ in oa)]
            if not nls:
                cond = and_(cond, eq(lab(l), idx))
                continue
            if len(nls) != 1:
                return fn("viewwrite", opq=True)
            nl = nls[0]
            rest = sub(idx, lab(nl))
            if nl in rest.labels:
                rest = add(idx, lab(nl))
                if nl in rest.labels:
                    return fn("viewwrite", opq=True)
                inv[nl] = sub(rest, lab(l))
            else:
                inv[nl] = sub(lab(l), rest)
            L = T.length(nl)
            cond = and_(cond, compare("<=", ZERO, inv[nl]), compare("<", inv[nl], L))
        return ite(cond, subst(a.expr, inv), b.expr)

    def mask_get(self, o, axes, mask, st):
        covered = o.axes[: len(axes)]
        m2 = and_(self.align(covered, axes, mask), *[c.mask for c in covered])
        cnt = self.count(covered, m2)
        if len(covered) == 1 and covered[0].label:
            na = Ax(covered[0].label, cnt, None, m2)
        else:
            na = Ax("#".join(l for c in covered for l, L in self.base_axes(c)) or None, cnt, tuple(covered), m2)
        return self.arr(st, (na,) + tuple(o.axes[len(axes):]), o.expr)

    def setitem(self, o, k, v, st, node):
        if isinstance(o, Ref):
            h = st.heap[o.id]
            if isinstance(h, Dct):
                ke = hkey(h, self.term(k, st))
                if h.kind == "header":  # (value, comment); commentary cards accumulate
                    if isinstance(v, Tup):
                        v = v.items[0]
                    if is_str_const(ke) and str_const(ke) in ("HISTORY", "COMMENT", ""):
                        if not self.keep_history:
                            return
                        old = h.ent.get(ke.key)
                        v = Tup((list(old[1].items) if old is not None and isinstance(old[1], Tup) else []) + [v])
                ent = dict(h.ent)
                ent[ke.key] = (ke, v)
                st.heap[o.id] = Dct(ent, h.base, h.org, h.kind)
                self.effect(st, "setkey", show(ke), [o, ke, v], node=node)
                self.note_mut(o, st, node)
                return
            if isinstance(h, Lst):
                kv = const_val(k) if isinstance(k, E) and k.kind == "poly" else None
                if kv is not None and -len(h.items) <= kv < len(h.items):
                    it = list(h.items)
                    it[int(kv)] = v
                    st.heap[o.id] = Lst(it, h.org)
                    self.note_mut(o, st, node)
                    return
                if isinstance(k, E) and all(isinstance(x, E) for x in h.items) and isinstance(v, E):
                    st.heap[o.id] = Lst([ite(eq(k, num(i)), v, x) for i, x in enumerate(h.items)], h.org)
                    self.note_mut(o, st, node)
                    return
                st.heap[o.id] = MapL((), TRUE, fn("setlist", self.term(o, st), self.term(k, st), self.term(v, st)))
                return
            if isinstance(h, MapL):
                # list built by repetition, then stored into
                if len(h.labels) == 1 and h.mask is TRUE and isinstance(k, E):
                    l, L = h.labels[0]
                    if isinstance(h.elem, E) and isinstance(v, E):
                        st.heap[o.id] = MapL(h.labels, h.mask, ite(eq(lab(l), k), v, h.elem))
                        return
                st.heap[o.id] = MapL((), TRUE, fn("setlist", self.term(o, st), self.term(k, st), self.term(v, st)))
                return
            if isinstance(h, Arr):
                self.arr_set(o, h, k, v, st, node)
                return
        if isinstance(o, Phi):
            for x in (o.a, o.b):
                if isinstance(x, Ref):
                    self.setitem(x, k, v, st, node)
            return
        self.effect(st, "setitem", "", [o, k, v], node=node)

    def arr_set(self, ref, o, k, v, st, node):
        vax, ve = self.num(v, st)
        if o.axes is None or vax is None:
            st.heap[ref.id] = Arr(o.axes, fn("store", o.expr, self.term(k, st), self.term(v, st)), o.dtype, o.org, o.base, getattr(node, "lineno", None))
            self.wthrough(ref, st)
            self.note_mut(ref, st, node)
            return
        keys = list(k.items) if isinstance(k, Tup) else [k]
        nel = sum(1 for x in keys if not (x is NONE or x is ELLIPSIS))
        for x in keys:
            if isinstance(x, Ref) and isinstance(st.heap[x.id], Arr):
                xo = st.heap[x.id]
                if is_boolish(xo.expr) and xo.axes is not None:
                    nel += len(xo.axes) - 1
            if isinstance(x, WhereIdx):
                nel += len(x.axes) - 1
        n = len(o.axes)
        pos = 0
        cond = TRUE
        tgt = []  # target axes as seen by the value: list of (Ax of view, old label, idxexpr)
        ok = True
        vmap_inv = {}
        for x in keys:
            if x is NONE:
                tgt.append(ONE_AX)
                continue
            if x is ELLIPSIS:
                m = n - nel
                tgt += list(o.axes[pos:pos + m])
                pos += m
                continue
            if pos >= n:
                self.issue("index", "too many indices", st, node)
                return
            a = o.axes[pos]
            if isinstance(x, SliceV):
                if a.label is None or a.parts:
                    tgt.append(a)
                    pos += 1
                    continue
                na, idx = self.slice_ax(a, x, st)
                tgt.append(na)
                if na is ONE_AX:
                    cond = and_(cond, eq(lab(a.label), idx))
                elif na is not a:
                    rest = sub(idx, lab(na.label))
                    if na.label in rest.labels:
                        rest2 = add(idx, lab(na.label))
                        if na.label in rest2.labels:
                            ok = False
                            break
                        vmap_inv[na.label] = sub(rest2, lab(a.label))
                    else:
                        vmap_inv[na.label] = sub(lab(a.label), rest)
                    inv = vmap_inv[na.label]
                    if not (inv is lab(a.label)):
                        cond = and_(cond, compare("<=", ZERO, inv))
                    cond = and_(cond, compare("<", inv, na.L))
                pos += 1
                continue
            if isinstance(x, WhereIdx) or (isinstance(x, Ref) and isinstance(st.heap[x.id], (Arr, Lst, MapL))):
                if isinstance(x, WhereIdx):
                    xa, xe, isb = x.axes, x.mask, True
                else:
                    xa, xe = self.num(x, st)
                    isb = is_boolish(xe)
                if xa is None:
                    ok = False
                    break
                if isb:
                    cov = o.axes[pos:pos + len(xa)]
                    m2 = self.align(cov, xa, xe)
                    cond = and_(cond, m2)
                    if len(cov) == 1 and not cov[0].parts:
                        tgt.append(("masked", cov[0], m2))
                    else:
                        tgt.append(("masked", Ax("#".join(l for c in cov for l, L in self.base_axes(c)) or None, None, tuple(cov), m2), m2))
                    pos += len(xa)
                    continue
                # integer fancy: masked index axis with expr == its own label => mask
                if len(xa) == 1 and xa[0].mask is not TRUE and xe is lab(xa[0].label) and a.mask is TRUE:
                    m2 = subst(xa[0].mask, {xa[0].label: lab(a.label)})
                    cond = and_(cond, m2)
                    tgt.append(("masked", a, m2))
                    pos += 1
                    continue
                ok = False
                break
            xe = self.scalar(x, st)
            if a.label is None and not a.parts:
                pos += 1
                continue
            if a.parts:
                idx = ZERO
                for l, L in self.base_axes(a):
                    idx = add(mul(idx, L), lab(l))
                cond = and_(cond, eq(idx, xe))
                pos += 1
                continue
            cond = and_(cond, eq(lab(a.label), self.norm_index(xe, a.L) if xe.kind == "poly" else xe))
            pos += 1
        if not ok:
            st.heap[ref.id] = Arr(o.axes, fn("store", self.term(ref, st), self.term(k, st), self.term(v, st)), o.dtype, o.org, o.base, getattr(node, "lineno", None))
            self.wthrough(ref, st)
            self.note_mut(ref, st, node)
            return
        tgt += list(o.axes[pos:])
        tax = [(Ax(t[1].label, t[1].L, t[1].parts, t[2]) if t[0] == "masked" else t[1]) if isinstance(t, tuple) and not isinstance(t, Ax) else t for t in tgt]
        # masked targets receive either a scalar or a masked-axis value
        if vax:
            ve = self.align(tax, vax, ve)
        if vmap_inv:
            ve = subst(ve, vmap_inv)
        st.heap[ref.id] = Arr(o.axes, ite(cond, ve, o.expr), o.dtype, o.org, o.base, getattr(node, "lineno", None))
        self.wthrough(ref, st)
        self.note_mut(ref, st, node)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == "next" and n.args and isinstance(n.args[0], ast.GeneratorExp) and len(n.args[0].generators) == 1 and not n.keywords:
            g = getattr(n, "_first", None)
            if g is None:
                c = n.args[0].generators[0]
                ret = [ast.Return(n.args[0].elt)]
                if c.ifs:
                    ret = [ast.If(ast.BoolOp(ast.And(), list(c.ifs)) if len(c.ifs) > 1 else c.ifs[0], ret, [])]
                end = ast.Return(n.args[1]) if len(n.args) > 1 else ast.Raise(ast.Name("StopIteration", ast.Load()), None)
                g = n._first = ast.FunctionDef("first", ast.arguments([], [], None, [], [], None, []), [ast.For(c.target, c.iter, ret, []), end], [], None)
                for x in ast.walk(g):
                    if not hasattr(x, "lineno"):
                        x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = n.lineno, n.col_offset, n.end_lineno, n.end_col_offset
            return self.call(self.mkfunc(g, st, "first"), [], {}, st, n)
        f = self.ev(n.func, st)
        if f is BOTTOM:
            return BOTTOM
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                s = self.iterate(v, st)
                if s[0] == "known":
                    args += s[1]
                else:
                    args.append(StarArg(v))
            else:
                v = self.ev(a, st)
                if v is BOTTOM:
                    return BOTTOM
                args.append(v)
        for k in n.keywords:
            v = self.ev(k.value, st)
            if v is BOTTOM:
                return BOTTOM
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.heap[v.id], Dct):
                    for ke, x in st.heap[v.id].ent.values():
                        if is_str_const(ke):
                            kw[str_const(ke)] = x
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        self.node = n
        return self.call(f, args, kw, st, n)

    def call(self, f, args, kw, st, node):
        if isinstance(f, Phi):
            g0 = st.guard
            # evaluate both callees on separate states
            s1, s2 = st.copy(), st.copy()
            s1.guard, s2.guard = self.gand(g0, f.c), self.gand(g0, not_(f.c))
            a = self.call(f.a, args, kw, s1, node)
            b = self.call(f.b, args, kw, s2, node)
            if a is BOTTOM:
                st.heap, st.guard = s2.heap, s2.guard
                return b
            if b is BOTTOM:
                st.heap, st.guard = s1.heap, s1.guard
                return a
            m = self.merge(f.c, s1, s2)
            st.heap = m.heap
            return self.merge_val(f.c, a, b, st, s1, s2)
        if isinstance(f, Func):
            if not f.raw and isinstance(f.node, ast.FunctionDef) and f.node.decorator_list:
                ds = [d for d in f.node.decorator_list if dec_name(d) not in HARMLESS]
                if ds:
                    g = f.bind(f.self)
                    g.raw = True
                    for d in reversed(ds):
                        if dec_name(d) == "contextmanager" or f.self is not None:
                            return self.opaque_call(f.qual, args, kw, st, node, opq=True)
                        dv = self.ev(d, st) if f.closure is not None else self.ev_default(f, d, st)
                        g = self.call(dv, [g], {}, st, node)
                        if g is BOTTOM:
                            return BOTTOM
                    if not isinstance(g, (Func, Part, Phi, Ext)):
                        return self.opaque_call(f.qual, args, kw, st, node, opq=True)
                    return self.call(g, args, kw, st, node)
            q = f.qual
            self.callsites.append((q, self.loc(node), node))
            h = self.hooks.get(q)
            if h is not None:
                r = h(self, args, kw, st, node)
                if r is not NotImplemented:
                    return r
            if q in self.opaque:
                return self.opaque_call(q, args, kw, st, node)
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, node)
        if isinstance(f, Ref) and isinstance(st.heap.get(f.id), Ob):
            c = self.clsnode(st.heap[f.id].cls)
            m = self.find_method(c, "__call__") if c is not None else None
            if m is not None:
                return self.call(m[0].method(m[1], f), args, kw, st, node)
        if isinstance(f, Part):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw}, st, node)
        if isinstance(f, Ext):
            h = self.hooks.get(f.name)
            if h is not None:
                r = h(self, args, kw, st, node)
                if r is not NotImplemented:
                    return r
            return self.ext(f.name, args, kw, st, node)
        if isinstance(f, Meth):
            return self.meth(f.obj, f.name, args, kw, st, node)
        if isinstance(f, MethE) and f.name == "item" and not args:
            return f.obj
        if isinstance(f, MethE):
            h = self.hooks.get("." + f.name)
            if h is not None:
                r = h(self, [f.obj] + list(args), kw, st, node)
                if r is not NotImplemented:
                    return r
            return self.opaque_call("m:" + f.name, [f.obj] + list(args), kw, st, node)
        if isinstance(f, E):
            at = single_atom(f) if f.kind == "poly" else None
            if at is not None and at.kind == "fn" and at.d[0] == "attr:item" and not args:
                return at.d[1][0]
            if at is not None and at.kind == "fn" and at.d[0].startswith("attr:"):
                h = self.hooks.get("." + at.d[0][5:])
                if h is not None:
                    r = h(self, [at.d[1][0]] + list(args), kw, st, node)
                    if r is not NotImplemented:
                        return r
                return self.opaque_call("m:" + at.d[0][5:], [at.d[1][0]] + list(args), kw, st, node)
            return self.opaque_call("call", [f] + list(args), kw, st, node)
        return self.opaque_call("call?", [f] + list(args), kw, st, node, opq=True)

    def opaque_call(self, q, args, kw, st, node, opq=None, effect=True):
        ts = [self.term(a.v if isinstance(a, StarArg) else a, st) for a in args]
        for k in sorted(kw):
            ts.append(fn("kw:" + k, self.term(kw[k], st)))
        if effect:
            self.effect(st, "call", q, args, kw, node=node)
        if opq is None:
            opq = not known_ext(q)
        if opq:
            self.unknown_calls.add(q)
        if self.trystack and not q.startswith("numpy.") and q not in NORAISE:
            self.may_raise(st, boolatom(fn("b:raises:" + q, *ts, raw=True)), "?")
        return fn("ext:" + q if not q.startswith("m:") else q, *ts, opq=opq)

    def bind(self, f, args, kw, st, node):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if f.self is not None:
            pos = [f.self] + pos
        if len(pos) > len(params):
            if a.vararg:
                env[a.vararg.arg] = Tup(pos[len(params):])
            else:
                self.issue("arity", "%s takes %d positional arguments but %d were given" % (f.qual, len(params), len(pos)), st, node)
            pos = pos[: len(params)]
        elif a.vararg:
            env[a.vararg.arg] = Tup([])
        for p, v in zip(params, pos):
            env[p] = v.v if isinstance(v, StarArg) else v
        star = any(isinstance(v, StarArg) for v in pos)
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in params or k in kwonly:
                if k in env:
                    self.issue("arity", "%s got multiple values for %s" % (f.qual, k), st, node)
                env[k] = v
            elif k == "**":
                star = True
            elif a.kwarg:
                extra[string(k).key] = (string(k), v)
            else:
                self.issue("arity", "%s got an unexpected keyword argument %r" % (f.qual, k), st, node)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, Dct(extra))
        # defaults
        nd = len(a.defaults)
        dflt = f.defaults
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                if j >= 0:
                    env[p] = dflt[j] if dflt is not None else self.ev_default(f, a.defaults[j], st)
                elif star:
                    env[p] = fn("stararg:" + p, opq=True)
                else:
                    self.issue("arity", "%s missing required argument %r" % (f.qual, p), st, node)
                    env[p] = fn("missing:" + p, opq=True)
        for i, p in enumerate(kwonly):
            if p not in env:
                d = a.kw_defaults[i]
                if f.kwdefaults is not None and f.kwdefaults[i] is not None:
                    env[p] = f.kwdefaults[i]
                elif d is not None:
                    env[p] = self.ev_default(f, d, st)
                else:
                    self.issue("arity", "%s missing keyword argument %r" % (f.qual, p), st, node)
                    env[p] = fn("missing:" + p, opq=True)
        return env

    def ev_default(self, f, d, st):
        self.stack.append(Func(f.mod.tree, f.mod, f.mod.name + ".<module>"))
        self.frameids.append(-1)
        st.frames.append({})
        try:
            return self.ev(d, st)
        finally:
            st.frames.pop()
            self.frameids.pop()
            self.stack.pop()

    def call_func(self, f, args, kw, st, node):
        if self.WATCH is not None and not f.qual.startswith("specs."):
            return self.WATCH(self, f, args, kw, st, node)
        return self.enter(f, args, kw, st, node)

    def enter(self, f, args, kw, st, node):
        if len(self.stack) > 40 or sum(1 for x in self.stack if x.node is f.node) > 3:
            return self.opaque_call(f.qual, args, kw, st, node, opq=True)
        self.calls += 1
        env = self.bind(f, args, kw, st, node)
        self.funcs_seen.add(f.qual)
        if f.closure is not None:
            env["%func"] = None
            del env["%func"]
        self.stack.append(f)
        self.nframe += 1
        # frames: callee frame is pushed on top
        st.frames.append(env)
        while len(self.frameids) < len(st.frames) - 1:
            self.frameids.append(-1)
        self.frameids.append(self.nframe)
        g0 = st.guard
        self.guards.append(g0)
        st.guard = TRUE
        fr = Frame()
        savednode = self.node
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                if v is BOTTOM:
                    return BOTTOM
                return v
            z = st.copy()
            gen = None
            if isinstance(f.node, ast.FunctionDef) and has_yield(f.node):
                gen = self.alloc(z, Lst([]))
                z.env["%gen"] = gen
            z = self.block(f.node.body, z, fr)
            rets = list(fr.rets)
            if gen is not None:
                rets = [(g_, gen, s_, n_) for g_, v_, s_, n_ in rets]
                if z is not None:
                    rets.append((z.guard, gen, z, None))
                    z = None
            if z is not None:
                rets.append((z.guard, NONE, z, None))
            rets = [r for r in rets if r[0] is not FALSE]
            if not rets:
                return BOTTOM
            acc = rets[-1]
            val, zst = acc[1], acc[2]
            for g, v, s_, nd in reversed(rets[:-1]):
                m = self.merge(g, s_, zst)
                # value merge must happen with access to both heaps
                val = self.merge_val(g, v, val, m, s_, zst)
                zst = m
            st.heap = zst.heap
            if f.outer and f.depth is not None and f.depth < len(st.frames):
                for n_ in f.outer:  # rebinding a name of the enclosing function
                    st.frames[f.depth][n_] = fn("nonlocal:" + n_, opq=True)
            f_guard = zst.guard
            return_guard = f_guard
            self._ret_guard = return_guard
            g1 = self.gand(g0, return_guard)
            return self._finish(val, st, g1)
        finally:
            st.frames.pop()
            self.frameids.pop()
            self.guards.pop()
            self.stack.pop()
            if st.guard is TRUE or True:
                st.guard = getattr(self, "_pending_guard", None) or g0
                self._pending_guard = None
            self.node = savednode

    def _finish(self, val, st, g1):
        self._pending_guard = g1
        return val

    def instantiate(self, c, args, kw, st, node):
        h = self.hooks.get(c.qual)
        if h is not None:
            r = h(self, args, kw, st, node)
            if r is not NotImplemented:
                return r
        bases = [b.id if isinstance(b, ast.Name) else getattr(b, "attr", "") for b in c.node.bases]
        if "NamedTuple" in bases:
            fields = [(b.target.id, b.value) for b in c.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
            names = [x for x, _ in fields]
            vals = {}
            if len(args) > len(names):
                self.issue("arity", "%s takes %d fields, %d given" % (c.qual, len(names), len(args)), st, node)
            for nme, v in zip(names, args):
                vals[nme] = v
            for k, v in kw.items():
                if k not in names:
                    self.issue("arity", "%s has no field %r" % (c.qual, k), st, node)
                vals[k] = v
            items = []
            for nme, d in fields:
                if nme in vals:
                    items.append(vals[nme])
                elif d is not None:
                    items.append(self.ev_default(Func(c.mod.tree, c.mod, c.qual), d, st))
                else:
                    self.issue("arity", "%s missing field %r" % (c.qual, nme), st, node)
                    items.append(fn("missing:" + nme, opq=True))
            return Tup(items, names, c.qual)
        o = self.alloc(st, Ob(c.qual, {}))
        m = self.find_method(c, "__init__")
        if m is None and any(dec_name(d) == "dataclass" for d in c.node.decorator_list):
            return self.mk_dataclass(c, o, args, kw, st, node)
        if m is not None:
            fobj = m[0].method(m[1], o)
            r = self.call_func(fobj, args, kw, st, node)
            if r is BOTTOM:
                return BOTTOM
        return o

    def mk_dataclass(self, c, o, args, kw, st, node):
        fields = [(b.target.id, b.value) for b in c.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
        if len(args) > len(fields) or any(k not in dict(fields) for k in kw):
            self.issue("arity", "%s: fields do not match the arguments" % c.qual, st, node)
        vals = dict(zip([f for f, _ in fields], args))
        vals.update(kw)
        for f, d in fields:
            if f not in vals:
                if d is None:
                    self.issue("arity", "%s missing field %r" % (c.qual, f), st, node)
                    vals[f] = fn("missing:" + f, opq=True)
                elif isinstance(d, ast.Call) and dec_name(d) == "field":
                    k = {x.arg: x.value for x in d.keywords}
                    if "default_factory" in k:
                        vals[f] = self.call(self.ev_default(Func(c.mod.tree, c.mod, c.qual), k["default_factory"], st), [], {}, st, node)
                    else:
                        vals[f] = self.ev_default(Func(c.mod.tree, c.mod, c.qual), k["default"], st) if "default" in k else fn("missing:" + f, opq=True)
                else:
                    vals[f] = self.ev_default(Func(c.mod.tree, c.mod, c.qual), d, st)
        st.heap[o.id] = Ob(c.qual, {f: vals[f] for f, _ in fields})
        m = self.find_method(c, "__post_init__")
        if m is not None and self.call_func(m[0].method(m[1], o), [], {}, st, node) is BOTTOM:
            return BOTTOM
        return o

    def exec_module(self, modname, st):
        """run the top-level assignments and calls of a module; returns its names (functions keep their definitions)"""
        mod = self.repo.modules[modname]
        self.stack.append(Func(mod.tree, mod, mod.name + ".<module>"))
        self.frameids.append(-1)
        st.frames.append({})
        try:
            self.block([s for s in mod.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)) and not (isinstance(s, ast.If) and "__main__" in ast.dump(s.test))], st, Frame())
            return dict(st.frames[-1])
        finally:
            st.frames.pop()
            self.frameids.pop()
            self.stack.pop()

    # ------------------------------------------------------------ entry
    def run(self, qual, args=(), kw=None, st=None):
        r = self.repo.resolve(qual)
        if r is None:
            raise KeyError(qual)
        kind, mod, node = r
        st = st or self.new_state()
        if kind == "class":
            return self.instantiate(Cls(node, mod, mod.name + "." + node.name), list(args), dict(kw or {}), st, node), st
        f = Func(node, mod, mod.name + "." + node.name)
        kw = dict(kw or {})
        if not qual.startswith("specs."):  # how much is printed is not fixed: results hold for either
            names = [x.arg for x in node.args.posonlyargs + node.args.args]
            for n in self.FREE_FLAGS:
                if n in names + [x.arg for x in node.args.kwonlyargs] and n not in kw and n not in names[:len(args)]:
                    kw[n] = T.boolatom(fn("b:" + n, raw=True))
        v = self.call_func(f, list(args), kw, st, node)
        return v, st

    WATCH = None  # called around every call of a repository function (checks that compare the state before and after)
    FREE_FLAGS = ("verbose", "debug", "showPlots", "saveFigures")


def own_loop_nodes(body, kinds):
    """break/continue statements that belong to the loop with this body"""
    out, todo = [], list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            out.append(n)
        if isinstance(n, (ast.For, ast.While)):
            todo += n.orelse
        elif not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo += [c for c in ast.iter_child_nodes(n) if isinstance(c, (ast.stmt, ast.excepthandler))]
    return out


def counted_while(s):
    """`while k < N: ...; k += 1` -> (k, equivalent statements with a for loop) or None"""
    if hasattr(s, "_counted"):
        return s._counted
    s._counted = None
    test, body = s.test, list(s.body)
    always = isinstance(test, ast.Constant) and bool(test.value)
    if always and body and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break) and not body[0].orelse and not s.orelse:
        test, body = negated(body[0].test), body[1:]
    rest = []
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        rest, test = test.values[1:], test.values[0]
        if s.orelse:
            return None
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    l, op, r = test.left, type(test.ops[0]), test.comparators[0]
    if not isinstance(l, ast.Name) and isinstance(r, ast.Name):
        l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Lt: ast.Gt, ast.LtE: ast.GtE}.get(op)
    if not isinstance(l, ast.Name) or op not in (ast.Lt, ast.LtE):
        return None
    k = l.id
    inc = None
    for j, b in enumerate(body):
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == k and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1:
            inc = j
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == k and ast.unparse(b.value) in (k + " + 1", "1 + " + k):
            inc = j
    if inc is None or inc != len(body) - 1 or own_loop_nodes(body, (ast.Continue,)):
        return None
    body = body[:inc]
    stored, touched = set(), set()
    for n in (x for b in body for x in ast.walk(b)):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stored.add(n.id)
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            b = n.func.value if isinstance(n, ast.Call) else n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and not (isinstance(n, ast.Subscript)):
                touched.add(b.id)
    used = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}
    if k in stored or k in used or used & stored or (used & touched) - {"np", "math", "self"}:
        return None
    for n in ast.walk(r):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "int", "min", "max")):
            return None
    if rest:
        body = [ast.If(ast.UnaryOp(ast.Not(), rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)), [ast.Break()], [])] + body
    N = r if op is ast.Lt else ast.BinOp(r, ast.Add(), ast.Constant(1))
    k0 = ast.Name("%from" + k, ast.Load())
    call = lambda f, *a: ast.Call(ast.Name(f, ast.Load()), list(a), [])
    end = ast.Assign([ast.Name(k, ast.Store())], call("max", k0, N))
    new = ast.For(ast.Name(k, ast.Store()), call("range", k0, N), body or [ast.Pass()], [end] + list(s.orelse))
    for x in ast.walk(new):
        if not hasattr(x, "lineno") and isinstance(x, (ast.stmt, ast.expr)):
            x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = s.lineno, s.col_offset, s.end_lineno, s.end_col_offset
    s._counted = (k, [new])
    return s._counted


def negated(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    inv = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in inv:
        return ast.copy_location(ast.Compare(t.left, [inv[type(t.ops[0])]()], t.comparators), t)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        return ast.copy_location(ast.BoolOp(ast.And(), [negated(v) for v in t.values]), t)
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


HARMLESS = {"deprecated", "wraps", "lru_cache", "cache", "staticmethod", "classmethod", "property", "njit", "jit", "cached_property", "abstractmethod", "override", "dataclass"}


def dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?")


def has_yield(f):
    """does the function (not one nested in it) contain a yield"""
    r = getattr(f, "_has_yield", None)
    if r is None:
        r = f._has_yield = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f))
    return r


def own_nodes(f):
    todo = list(ast.iter_child_nodes(f))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(n)


class Frame:
    def __init__(self):
        self.rets, self.loops = [], []


class LoopCtx:
    def __init__(self):
        self.breaks, self.conts = [], []


class LcList:
    """list being appended to inside a loop being summarised"""
    __slots__ = ("name", "init", "items", "org")

    def __init__(s, name, init, items):
        s.name, s.init, s.items, s.org = name, init, tuple(items), frozenset()


class PhiL:
    __slots__ = ("c", "a", "b", "org")

    def __init__(s, c, a, b):
        s.c, s.a, s.b, s.org = c, a, b, frozenset()


class ZipV:
    def __init__(s, items):
        s.items = items


class EnumV:
    def __init__(s, it, start):
        s.it, s.start = it, start


class ItemsV:
    def __init__(s, d, kind):
        s.d, s.kind = d, kind


class StarArg:
    def __init__(s, v):
        s.v = v


class MethE:
    def __init__(s, obj, name):
        s.obj, s.name = obj, name


def AttrE(interp, v, name):
    return fn("attr:" + name, v)


class _Bottom:
    def __repr__(s):
        return "BOTTOM"


BOTTOM = _Bottom()
ABSENT = T.mk("undef", "absent", "absent")


def has_undef(e):
    if e.kind == "ite":
        return has_undef(e.d[1]) or has_undef(e.d[2])
    return e is UNDEF


def drop_undef(e):
    if e.kind == "ite":
        a, b = drop_undef(e.d[1]), drop_undef(e.d[2])
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return T.ite_node(e.d[0], a, b)
    return e


def has_absent(e):
    if e.kind == "ite":
        return has_absent(e.d[1]) or has_absent(e.d[2])
    return e is ABSENT


def drop_absent(e):
    if e.kind == "ite":
        a, b = drop_absent(e.d[1]), drop_absent(e.d[2])
        if a is ABSENT:
            return b
        if b is ABSENT:
            return a
        return T.ite_node(e.d[0], a, b)
    return e


def all_str(e):
    if e.kind == "ite":
        return all_str(e.d[1]) and all_str(e.d[2])
    return e.kind == "str"


def lift_cat(parts):
    ites = [p for p in parts if isinstance(p, E) and p.kind == "ite"]
    if not ites:
        return strcat(parts)
    es = [p if isinstance(p, E) else string(p) for p in parts]
    return lift("strcatN", lambda *xs: strcat(list(xs)), *es)


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in target_names(x)]
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return []


def walk_scope(n):
    """walk a statement without entering nested function scopes"""
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            continue
        yield from walk_scope(c)


def split_index(x, y):
    """(q, r) with x = q*y + r and 0 <= r < y, for flattened indices built from loop or axis indices; None if not of that form"""
    if x.kind != "poly":
        return None
    at = single_atom(x)
    if at is not None and at.kind == "fn" and at.d[0] == "ordinal":
        n = len(at.d[1]) // 2
        labs, Ls = at.d[1][:n], at.d[1][n:]
        size = ONE
        for k in range(n - 1, 0, -1):
            size = mul(size, Ls[k])
            if size is y:
                low, high = labs[k:], labs[:k]
                r = low[0] if len(low) == 1 else fn("ordinal", *(list(low) + list(Ls[k:])))
                q = high[0] if len(high) == 1 else fn("ordinal", *(list(high) + list(Ls[:k])))
                return q, r
        return None
    for a in T.atoms_of(x):
        if a.kind == "lab" and length(a.d[0]) is y:
            l = lab(a.d[0])
            q = div(sub(x, l), y)
            if not any(b is a for b in T.atoms_of(q)) and npmodel.is_integral(q):
                return q, l
    return None


def _floordiv(a, b):
    def f(x, y):
        sp = split_index(T._n(x), T._n(y))
        if sp:
            return sp[0]
        p, q = const_val(T._n(x)), const_val(T._n(y))
        if p is not None and q:
            return num(p // q)
        return fn("floordiv", T._n(x), T._n(y))
    return lift("floordiv", f, a, b)


def _mod(a, b):
    def f(x, y):
        sp = split_index(T._n(x), T._n(y))
        if sp:
            return sp[1]
        p, q = const_val(T._n(x)), const_val(T._n(y))
        if p is not None and q:
            return num(p % q)
        at = single_atom(x)
        if at is not None and at.kind == "fn" and at.d[0] == "mod" and at.d[1][1] is y:
            return x
        return fn("mod", T._n(x), T._n(y))
    return lift("mod", f, a, b)


def _bitop(name, logical):
    def f(a, b):
        if is_boolish(a) and is_boolish(b):
            return logical(a, b)
        return lift(name, lambda x, y: logical(x, y) if x.kind == "bool" and y.kind == "bool" else fn(name, x, y), a, b)
    return f


BINOPS = {
    "Add": lambda a, b: add(b2n(a), b2n(b)) if not (is_boolish(a) and is_boolish(b)) else add(b2n(a), b2n(b)),
    "Sub": lambda a, b: sub(b2n(a), b2n(b)),
    "Mult": lambda a, b: mul(b2n(a), b2n(b)),
    "Div": lambda a, b: div(b2n(a), b2n(b)),
    "Pow": lambda a, b: power(b2n(a), b2n(b)),
    "FloorDiv": _floordiv,
    "Mod": _mod,
    "BitAnd": _bitop("bitand", and_),
    "BitOr": _bitop("bitor", or_),
    "BitXor": _bitop("bitxor", lambda a, b: ite(a, not_(b), truth(b))),
    "LShift": lambda a, b: fn("lshift", a, b),
    "RShift": lambda a, b: fn("rshift", a, b),
    "MatMult": lambda a, b: fn("matmul", a, b),
}

SCALAR_ATTR = {"copy", "astype", "item", "tolist", "conj", "conjugate", "value", "sum", "mean", "max", "min", "round", "flatten", "squeeze", "all", "any", "is_integer"}
import builtins as _b
BUILTINS = set(dir(_b)) | {"__file__", "__name__", "__doc__"}
ALIAS = {}
EXT_CONST = {}
NORAISE = {"print", "builtins.print", "sys.stdout.flush"}
KNOWN_PREFIX = ("numpy.", "math.", "builtins.", "os.", "scipy.", "astropy.", "json.", "sys.", "time.", "gc.", "tqdm", "matplotlib", "bilby", "finufft", "glob", "re.", "traceback", "argparse", "csv.", "shutil", "multiprocessing", "schwimmbad", "m:")


def known_ext(q):
    return q.startswith(KNOWN_PREFIX) or q in KNOWN_REPO


KNOWN_REPO = set()

from . import npmodel  # noqa: E402  (adds ext / meth / arr_attr to Interp)
