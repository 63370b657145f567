"""Models of the external library functions used by the repository (numpy, builtins,
os.path, finufft, ...), as operations on the abstract values of interp.py."""
from .interp import *
from .interp import _b  # noqa
from . import interp as IN
from . import term as T
from .term import *

ALIAS = IN.ALIAS
EXT_CONST = IN.EXT_CONST
ALIAS.update({
    "numpy.ma.abs": "numpy.abs", "numpy.ma.fabs": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.ma.absolute": "numpy.abs", "numpy.ma.where": "numpy.where",
    "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.conjugate": "numpy.conj", "numpy.amax": "numpy.max",
    "numpy.amin": "numpy.min", "numpy.divide": "numpy.true_divide", "numpy.asanyarray": "numpy.asarray", "numpy.product": "numpy.prod",
    "numpy.deg2rad": "numpy.radians", "numpy.rad2deg": "numpy.degrees", "numpy.float": "builtins.float",
    "builtins.abs": "numpy.abs", "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp", "math.log": "numpy.log", "math.sin": "numpy.sin",
    "math.cos": "numpy.cos", "math.radians": "numpy.radians", "math.degrees": "numpy.degrees", "math.isnan": "numpy.isnan",
    "math.isfinite": "numpy.isfinite", "math.atan2": "numpy.arctan2", "math.ceil": "numpy.ceil", "math.floor": "numpy.floor", "math.pow": "numpy.power", "math.log10": "numpy.log10",
    "numpy.bitwise_and": "numpy.logical_and", "numpy.alltrue": "numpy.all", "numpy.any_": "numpy.any",
    "scipy.special.erf": "scipy.special.erf", "numpy.arctan2": "numpy.arctan2", "math.fabs": "numpy.abs",
    "tqdm.auto.tqdm": "tqdm.tqdm", "tqdm.auto.trange": "tqdm.trange", "builtins.exit": "sys.exit", "builtins.quit": "sys.exit",
    "numpy.nan_": "numpy.nan", "numpy.invert": "numpy.invert", "numpy.bitwise_not": "numpy.invert", "numpy.logical_not": "numpy.invert",
    "numpy.NaN": "numpy.nan", "numpy.Inf": "numpy.inf", "numpy.NAN": "numpy.nan", "os.getcwd": "os.getcwd",
    "numpy.core.records.fromarrays": "numpy.core.records.fromarrays", "os.path.split": "os.path.split",
    "numpy.multiply": "numpy.multiply", "numpy.angle": "numpy.angle",
})
EXT_CONST.update({
    "numpy.pi": PI, "math.pi": PI, "numpy.newaxis": NONE, "numpy.nan": NAN, "numpy.inf": INF, "math.inf": INF, "math.nan": NAN,
    "astropy.constants.c": C_LIGHT, "astropy.constants.c.value": C_LIGHT, "scipy.constants.c": C_LIGHT,
    "scipy.constants.speed_of_light": C_LIGHT, "astropy.constants.si.c": C_LIGHT, "astropy.constants.si.c.value": C_LIGHT,
    "scipy.constants.pi": PI, "numpy.e": exp(ONE), "math.e": exp(ONE), "sys.argv": sym("obj:sys.argv"),
    "numpy.r_": Ext("numpy.r_"),
})

NP = {}


def reg(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


def sig(args, kw, *names, **defaults):
    """bind positional/keyword arguments by name -> list of values (None when absent)"""
    out = []
    for i, n in enumerate(names):
        if i < len(args):
            v = args[i]
            if isinstance(v, StarArg):
                v = v.v
            out.append(v)
        else:
            out.append(kw.get(n, defaults.get(n)))
    return out


def norm_dtype(I, v, st):
    """dtype argument -> canonical str term (or None)"""
    if v is None or v is NONE:
        return None
    if isinstance(v, Ext):
        n = v.name.split(".")[-1]
        n = {"float": "float64", "int": "int64", "complex": "complex128", "bool_": "bool", "float_": "float64", "double": "float64", "single": "float32"}.get(n, n)
        return string(n)
    t = I.term(v, st)
    if is_str_const(t):
        s = str_const(t)
        s = {"float": "float64", "int": "int64", "complex": "complex128", "f4": "float32", "f8": "float64", "d": "float64", "f": "float32"}.get(s, s)
        return string(s)
    return t


def dtype_class(d):
    """float / complex / int / bool / None (unknown)"""
    if d is None:
        return None
    s = None
    if d.kind == "str":
        s = d.d[0] if d.d and isinstance(d.d[0], str) else ""
    if s is None:
        return None
    for c in ("float", "complex", "bool", "uint", "int", "str", "U", "S"):
        if s.startswith(c):
            return "int" if c == "uint" else "str" if c in ("U", "S") else c
    return None


def cast(I, e, d):
    c = dtype_class(d)
    if c == "int":
        def leaf(x):
            x = b2n(x)
            return fint(x)
        return lift("cast_int", leaf, e)
    if c == "bool":
        return truth(e)
    if c in ("float", "complex"):
        return b2n(e) if is_boolish(e) else e
    return e


def fint(x):
    """truncation to an integer"""
    if x.kind != "poly":
        return fn("int", x)
    v = const_val(x)
    if v is not None:
        return num(int(v))
    if is_integral(x):
        return x
    return fn("int", x)


INT_FN = {"int", "floor", "ceil", "round", "floordiv", "len", "lenof", "ordinal", "slicelen", "mod", "wrap", "count", "where", "whereidx", "find", "ndim"}


def is_integral(x):
    if x.kind != "poly":
        return False
    for m, c in x.d:
        if c[1] or c[0].denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if not (a.kind == "lab" or a.kind == "fn" and a.d[0] in INT_FN and (a.d[0] != "mod" or all(is_integral(z) for z in a.d[1]))
                    or a.kind == "red" and a.d[0] in ("argmax", "argmin", "nanargmax", "nanargmin")
                    or a.kind == "red" and a.d[0] == "sum" and int_leaves(a.d[2])):
                return False
    return True


def int_leaves(b):
    if b.kind == "ite":
        return int_leaves(b.d[1]) and int_leaves(b.d[2])
    return b.kind == "bool" or is_integral(b)


def shape_list(I, v, st):
    """shape argument -> list of E"""
    if isinstance(v, Phi):
        return None
    if isinstance(v, E):
        return [v]
    l = I.aslist(v, st)
    if l is not None:
        return [I.scalar(x, st) for x in l]
    return None


def axes_for(I, dims):
    out = []
    for d in dims:
        if d is ONE:
            out.append(ONE_AX)
        else:
            out.append(ax(I.fresh("d", d), d))
    return tuple(out)


def mk_filled(I, st, shape, e, dtype):
    dims = shape_list(I, shape, st)
    if dims is None:
        return I.alloc(st, Arr(None, fn("full", I.term(shape, st), e), dtype))
    return I.alloc(st, Arr(axes_for(I, dims), cast(I, e, dtype), dtype))


@reg("numpy.zeros", "numpy.empty")
def np_zeros(I, args, kw, st, node):
    sh, dt = sig(args, kw, "shape", "dtype")
    return mk_filled(I, st, sh, ZERO, norm_dtype(I, dt, st))


@reg("numpy.ones")
def np_ones(I, args, kw, st, node):
    sh, dt = sig(args, kw, "shape", "dtype")
    return mk_filled(I, st, sh, ONE, norm_dtype(I, dt, st))


@reg("numpy.full")
def np_full(I, args, kw, st, node):
    sh, v, dt = sig(args, kw, "shape", "fill_value", "dtype")
    return mk_filled(I, st, sh, I.scalar(v, st), norm_dtype(I, dt, st))


def like(I, args, kw, st, e):
    a, dt = sig(args, kw, "a", "dtype")
    if a is None:
        a = kw.get("x")
    axes, ex = I.num(a, st)
    d = norm_dtype(I, dt, st)
    if d is None and I.isarr(a, st):
        d = st.heap[a.id].dtype
    if axes is None:
        return I.alloc(st, Arr(None, fn("like", ex, e), d))
    axes = tuple(Ax(x.label, x.L, x.parts, x.mask) for x in axes)
    return I.alloc(st, Arr(axes, cast(I, e, d), d)) if axes else cast(I, e, d)


@reg("numpy.zeros_like", "numpy.empty_like")
def np_zeros_like(I, args, kw, st, node):
    return like(I, args, kw, st, ZERO)


@reg("numpy.ones_like")
def np_ones_like(I, args, kw, st, node):
    return like(I, args, kw, st, ONE)


@reg("numpy.full_like")
def np_full_like(I, args, kw, st, node):
    return like(I, [args[0]], kw, st, I.scalar(args[1] if len(args) > 1 else kw["fill_value"], st))


@reg("numpy.array", "numpy.copy")
def np_array(I, args, kw, st, node):
    a, dt = sig(args, kw, "object", "dtype")
    if a is None:
        a = kw.get("a")
    if isinstance(a, Phi):
        return I.merge_val(a.c, np_array(I, [a.a] + list(args[1:]), kw, st, node), np_array(I, [a.b] + list(args[1:]), kw, st, node), st, st, st)
    d = norm_dtype(I, dt, st)
    if isinstance(a, (ZipV, EnumV)):
        s = I.iterate(a, st)
        a = Tup(s[1]) if s[0] == "known" else a
    if isinstance(a, E) and not I.is_scalar_num(a):
        return fn("array", a) if d is None else fn("array", a, d)
    if isinstance(a, Ref) and isinstance(st.heap[a.id], (Dct, Ob, LcList, PhiL)):
        return fn("array", I.term(a, st), opq=True)
    if isinstance(a, WhereIdx):
        return a
    src = st.heap[a.id] if I.isarr(a, st) else None
    if src is not None and (kw.get("copy") is FALSE or I.cur_ext == "numpy.array" and kw.get("copy") is NONE) and (d is None or cast(I, src.expr, d) is src.expr):
        return a
    axes, e = I.num(a, st)
    if d is None and src is not None:
        d = src.dtype
    return I.alloc(st, Arr(axes, cast(I, e, d), d)) if axes != () else cast(I, e, d)


@reg("numpy.atleast_1d")
def np_atleast1(I, args, kw, st, node):
    if I.isarr(args[0], st):
        return args[0]
    axes, e = I.num(args[0], st)
    if axes == () and not (isinstance(args[0], E) and not I.is_scalar_num(args[0])):
        return I.alloc(st, Arr((ONE_AX,), e))
    return np_array(I, args, kw, st, node)


@reg("numpy.asarray", "numpy.ascontiguousarray")
def np_asarray(I, args, kw, st, node):
    if I.isarr(args[0], st) and len(args) == 1 and not kw:
        return args[0]
    return np_array(I, args, kw, st, node)


def axis_list(I, v, n, st):
    """axis argument -> list of nonnegative ints, or None for all, or 'x' when unknown"""
    if v is None or v is NONE:
        return None
    l = [v] if isinstance(v, E) else I.aslist(v, st)
    if l is None:
        return "x"
    out = []
    for x in l:
        c = const_val(x) if isinstance(x, E) and x.kind == "poly" else None
        if c is None:
            return "x"
        c = int(c)
        out.append(c + n if c < 0 else c)
    return out


def reduce_(I, name, v, axis, st, keep=False, node=None):
    if isinstance(v, Phi):
        return I.merge_val(v.c, reduce_(I, name, v.a, axis, st, keep, node), reduce_(I, name, v.b, axis, st, keep, node), st, st, st)
    axes, e = I.num(v, st)
    if axes is None:
        return fn("red:" + name, e, I.term(axis, st) if axis is not None else NONE)
    if axes == () and isinstance(v, E) and not I.is_scalar_num(v):
        return fn("red:" + name, e, I.term(axis, st) if axis is not None else NONE)
    n = len(axes)
    al = axis_list(I, axis, n, st)
    if al == "x":
        return fn("red:" + name, I.term(v, st), I.term(axis, st))
    if al is None:
        al = list(range(n))
    for k in al:
        if k >= n or k < 0:
            I.issue("axis", "axis %d out of range for %d dimensions" % (k, n), st, node)
            return fn("badaxis", opq=True)
    rest = []
    for i, a in enumerate(axes):
        if i not in al:
            rest.append(a)
        elif keep is TRUE:
            rest.append(ONE_AX)
    red_axes = [axes[k] for k in sorted(al)]
    r = reduce_expr(I, name, red_axes, e)
    return I.arr(st, rest, r)


def reduce_expr(I, name, red_axes, e):
    if T.has_leaf(e, MASKED):
        if name in ("max", "nanmax", "argmax", "nanargmax"):
            e = T.replace_leaf(e, MASKED, neg(INF))
        elif name in ("min", "nanmin", "argmin", "nanargmin"):
            e = T.replace_leaf(e, MASKED, INF)
        elif name in ("sum", "nansum", "any"):
            e = T.replace_leaf(e, MASKED, ZERO)
    base = []
    mask = TRUE
    if T.has_leaf(e, MASKED):
        mask = not_(lift("ismasked", lambda x: TRUE if x is MASKED else FALSE, e))
        e = T.replace_leaf(e, MASKED, ZERO)
    for a in red_axes:
        base += I.base_axes(a)
        mask = and_(mask, a.mask)
    if name in ("sum", "nansum"):
        b = b2n(e)
        if name == "nansum":
            b = ite(isnan(e), ZERO, b)
        b = ite(mask, b, ZERO)
        for l, L in reversed(base):
            b = red("sum", l, b, L)
        return b
    if name in ("any", "all"):
        t = truth(e)
        t = and_(mask, t) if name == "any" else or_(not_(mask), t)
        for l, L in reversed(base):
            t = red(name, l, t, L)
        return t
    if name in ("mean", "nanmean"):
        m = mask if name == "mean" else and_(mask, not_(isnan(e)))
        s, c = ite(m, b2n(e), ZERO), ite(m, ONE, ZERO)
        for l, L in reversed(base):
            s = red("sum", l, s, L)
            c = red("sum", l, c, L)
        return div(s, c)
    if name in ("max", "min") and mask is not TRUE:  # the largest of the values that are numbers
        nz = isnan(e)
        if nz is not FALSE and mask is not_(nz):
            name, mask = "nan" + name, TRUE
    if name in ("var", "std", "nanstd", "nanvar"):
        mu = reduce_expr(I, "nanmean" if name.startswith("nan") else "mean", red_axes, e)
        d2 = mul(sub(e, mu), sub(e, mu)) if e._real else power(absv(sub(e, mu)), num(2))
        v = reduce_expr(I, "nanmean" if name.startswith("nan") else "mean", red_axes, d2)
        return sqrt(v) if name.endswith("std") else v
    if name == "prod":
        b = log(ite(mask, b2n(e), ONE))
        for l, L in reversed(base):
            b = red("sum", l, b, L)
        return exp(b)
    e = b2n(e)
    if name in ("max", "min", "nanmax", "nanmin"):
        if not base:
            return e
        flip = mask is not TRUE and name.endswith("min")
        if flip:
            name, e = name[:-3] + "max", neg(e)
        if mask is not TRUE:
            e = ite(mask, e, sym("filtered"))
        for l, L in reversed(base):
            e = red(name, l, e, L)
        return neg(e) if flip else e
    if name in ("argmax", "argmin", "nanargmax", "nanargmin", "median", "nanmedian", "ptp"):
        if name in ("argmin", "nanargmin"):
            name, e = name[:-3] + "max", neg(e)
        if name == "nanmedian":  # the median of the values that are numbers
            name, mask = "median", and_(mask, not_(isnan(e)))
        if mask is not TRUE:
            e = ite(mask, e, sym("filtered"))
            if name != "median" and name != "nanmedian":
                name = name + "~masked"
        if not base:
            return ZERO if "arg" in name else e
        if len(base) == 1:
            return red(name, base[0][0], e, base[0][1])
        for l, L in reversed(base):
            e = I.close_label(l, L, e)
        return fn("flat" + name, e)
    raise Abort("reduction " + name)


def _mkred(name):
    def f(I, args, kw, st, node):
        a, axis, dt = sig(args, kw, "a", "axis", "dtype")
        if a is None:
            a = kw.get("x", kw.get("arr"))
        if name in ("sum", "max", "min", "any", "all") and isinstance(a, Ref) and isinstance(st.heap[a.id], MapL):
            o = st.heap[a.id]
        return reduce_(I, name, a, axis, st, kw.get("keepdims"), node)
    return f


for _n_ in ("sum", "nansum", "mean", "nanmean", "median", "nanmedian", "max", "min", "nanmax", "nanmin", "argmax", "argmin", "nanargmax", "nanargmin", "any", "all", "std", "nanstd", "nanvar", "var", "prod"):
    NP["numpy." + _n_] = _mkred(_n_)


for _n_ in ("sum", "mean", "median", "max", "min", "argmax", "argmin", "any", "all"):
    NP["numpy.ma." + _n_] = _mkred(_n_)


@reg("numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.MaskedArray", "numpy.ma.masked_where")
def np_ma(I, args, kw, st, node):
    if I.cur_ext == "numpy.ma.masked_where":
        m, x = args[:2]
    else:
        x, m = sig(args, kw, "data", "mask")
    if m is None:
        return x
    r = I.ew(lambda a, b: ite(truth(b), MASKED, b2n(a)), [x, m], st)
    return r


@reg("numpy.ma.getmaskarray", "numpy.ma.getmask")
def np_getmask(I, args, kw, st, node):
    return I.ew(lambda a: lift("ismasked", lambda x: TRUE if x is MASKED else FALSE, a), [args[0]], st)


@reg("numpy.ma.masked_invalid")
def np_masked_invalid(I, args, kw, st, node):
    fin = NP["numpy.isfinite"](I, args[:1], {}, st, node)
    return I.ew(lambda f, a: ite(truth(f), b2n(a), MASKED), [fin, args[0]], st)


@reg("numpy.ma.filled")
def np_filled(I, args, kw, st, node):
    v = I.scalar(args[1], st)
    return I.ew(lambda a: T.replace_leaf(a, MASKED, v), [args[0]], st)


def _ewfn(f):
    def g(I, args, kw, st, node):
        a = args[0] if args else kw.get("x")
        if isinstance(a, E) and not I.is_scalar_num(a):
            pass
        return I.ew(f, [a], st)
    return g


def lift1(name, f):
    return lambda x: lift(name, lambda z: f(T._n(z)), x)


def ufn(name):
    def f(x):
        return lift("u:" + name, lambda z: fn(name, T._n(z)), x)
    return f


def np_real(x):
    return real(x)


def f_round(x):
    def leaf(z):
        z = T._n(z)
        v = const_val(z)
        if v is not None:
            return num(round(v))
        return z if is_integral(z) else fn("round", z)
    return lift("round", leaf, x)


def f_ceil(x):
    def leaf(z):
        z = T._n(z)
        v = const_val(z)
        if v is not None:
            return num(-((-v.numerator) // v.denominator))
        return z if is_integral(z) else fn("ceil", z)
    return lift("ceil", leaf, x)


def f_floor(x):
    def leaf(z):
        z = T._n(z)
        v = const_val(z)
        if v is not None:
            return num(v.numerator // v.denominator)
        return z if is_integral(z) else fn("floor", z)
    return lift("floor", leaf, x)


def f_tan(x):
    return div(sin(x), cos(x))


def f_log10(x):
    return div(log(x), log(num(10)))


def inv_bool(x):
    if is_boolish(x):
        return not_(x)
    return lift("invert", lambda z: not_(z) if z.kind == "bool" else fn("invert", z), x)


for _nm, _f in {
    "abs": lambda x: absv(b2n(x)), "sqrt": lambda x: sqrt(b2n(x)), "exp": lambda x: exp(b2n(x)), "cos": lambda x: cos(b2n(x)), "sin": lambda x: sin(b2n(x)), "tan": f_tan,
    "log": lambda x: log(b2n(x)), "log10": f_log10, "log2": lambda x: div(log(x), log(num(2))),
    "isnan": isnan, "isinf": isinf, "isfinite": isfinite, "real": lambda x: real(b2n(x)), "imag": lambda x: imag(b2n(x)),
    "conj": conj, "invert": inv_bool, "radians": lambda x: div(mul(x, PI), num(180)), "degrees": lambda x: div(mul(x, num(180)), PI),
    "ceil": f_ceil, "floor": f_floor, "rint": f_round, "sinc": ufn("sinc"), "arctan": ufn("arctan"), "arcsin": ufn("arcsin"), "arccos": ufn("arccos"),
    "square": lambda x: power(x, num(2)), "negative": lambda x: neg(x), "sign": ufn("sign"), "tanh": ufn("tanh"), "reciprocal": lambda x: div(ONE, x),
}.items():
    NP["numpy." + _nm] = _ewfn(_f)
NP["scipy.special.erf"] = _ewfn(lambda x: lift("u:erf", lambda z: fn("erf", T._n(z), real=T._n(z)._real), x))


@reg("numpy.round", "numpy.around", "builtins.round")
def np_round(I, args, kw, st, node):
    a, d = sig(args, kw, "a", "decimals")
    if d is None or d is ZERO:
        return I.ew(f_round, [a], st)
    return I.ew(lambda x, y: lift("roundn", lambda p, q: fn("roundn", p, q), x, y), [a, d], st)


def _ew2(f):
    def g(I, args, kw, st, node):
        return I.ew(f, list(args[:2]), st)
    return g


B = IN.BINOPS
for _nm, _f in {
    "true_divide": B["Div"], "multiply": B["Mult"], "add": B["Add"], "subtract": B["Sub"], "power": B["Pow"], "float_power": B["Pow"], "floor_divide": B["FloorDiv"],
    "mod": B["Mod"], "remainder": B["Mod"], "fmod": lambda a, b: lift("fmod", lambda x, y: fn("fmod", x, y), a, b),
    "logical_and": lambda a, b: and_(a, b), "logical_or": lambda a, b: or_(a, b), "logical_xor": lambda a, b: ite(a, not_(b), truth(b)),
    "arctan2": lambda a, b: lift("arctan2", lambda x, y: fn("arctan2", T._n(x), T._n(y)), a, b),
    "hypot": lambda a, b: sqrt(add(mul(a, a), mul(b, b))),
    "maximum": lambda a, b: minmax("max", [b2n(a), b2n(b)]), "minimum": lambda a, b: minmax("min", [b2n(a), b2n(b)]),
    "greater": lambda a, b: compare(">", a, b), "less": lambda a, b: compare("<", a, b), "equal": lambda a, b: compare("==", a, b),
    "greater_equal": lambda a, b: compare(">=", a, b), "less_equal": lambda a, b: compare("<=", a, b), "not_equal": lambda a, b: compare("!=", a, b),
}.items():
    NP["numpy." + _nm] = _ew2(_f)


@reg("numpy.where", "numpy.nonzero")
def np_where(I, args, kw, st, node):
    if len(args) == 1:
        axes, e = I.num(args[0], st)
        if axes is None or not axes:
            return fn("where", I.term(args[0], st))
        if truth(e) is TRUE and len(axes) > 1 and all(a.mask is TRUE and a.label and not a.parts for a in axes):  # every position
            g = np_indices(I, [Tup([a.L for a in axes])], {}, st, node)
            return Tup([I.call(IN.Meth(x, "ravel"), [], {}, st, node) for x in st.heap[g.id].items])
        n = const_val(axes[0].L) if len(axes) == 1 and axes[0].label and not axes[0].parts and axes[0].mask is TRUE else None
        if n is not None and 0 < n <= 32:  # truth values known one by one
            sel = [subst(truth(e), {axes[0].label: num(i)}) for i in range(int(n))]
            if all(x is TRUE or x is FALSE for x in sel) and any(x is TRUE for x in sel):
                return Tup([np_array(I, [I.alloc(st, Lst([num(i) for i, x in enumerate(sel) if x is TRUE]))], {}, st, node)])
        return WhereIdx(axes, and_(truth(e), *[a.mask for a in axes]))
    return I.ew(lambda c, a, b: ite(truth(c), a, b), list(args[:3]), st)


@reg("numpy.flatnonzero")
def np_flatnonzero(I, args, kw, st, node):
    w = np_where(I, args, kw, st, node)
    if isinstance(w, WhereIdx) and len(w.axes) == 1:
        return I.getitem(w, ZERO, st, node)
    return fn("flatnonzero", I.term(args[0], st))


def coord_order(I, axes):
    """position of each array axis in the index tuple; None for size-1 axes"""
    out, n = [], 0
    for a in axes:
        if a.label is None and not a.parts:
            out.append(None)
        else:
            for _ in I.base_axes(a):
                out.append(n)
                n += 1
    return out


@reg("numpy.indices")
def np_indices(I, args, kw, st, node):
    sh = shape_list(I, args[0], st)
    if sh is None:
        return fn("indices", I.term(args[0], st), opq=True)
    out = []
    for k in range(len(sh)):
        ls = [I.fresh("g", L) for L in sh]
        out.append(I.alloc(st, Arr(tuple(ax(l, L) for l, L in zip(ls, sh)), lab(ls[k]))))
    return I.alloc(st, Lst(out))


@reg("numpy.unravel_index")
def np_unravel(I, args, kw, st, node):
    i, shape = sig(args, kw, "indices", "shape")
    sh = shape_list(I, shape, st)
    if sh is None or "order" in kw:
        return fn("unravel_index", I.term(i, st), I.term(shape, st), opq=True)
    out = []
    rest = ONE
    for k in reversed(range(len(sh))):
        r, L = rest, sh[k]
        out.append(I.ew(lambda x, r=r, L=L, k=k: lift("unravel", lambda y: IN._floordiv(y, r) if k == 0 else IN._mod(IN._floordiv(y, r) if r is not ONE else y, L), x), [i], st))
        rest = mul(rest, L)
    return Tup(list(reversed(out)))


@reg("numpy.ndindex")
def np_ndindex(I, args, kw, st, node):
    sh = shape_list(I, args[0] if len(args) == 1 else Tup(list(args)), st)
    if sh is None:
        return fn("ndindex", *[I.term(a, st) for a in args], opq=True)
    return it_product(I, [IN.RangeV(ZERO, L, ONE) for L in sh], {}, st, node)


@reg("itertools.product")
def it_product(I, args, kw, st, node):
    seqs = [I.iterate(a, st) for a in args]
    if "repeat" in kw:
        seqs = seqs * int(const_val(kw["repeat"]))
    if all(q[0] == "known" for q in seqs):
        import itertools
        return I.alloc(st, Lst([Tup(list(c)) for c in itertools.product(*[q[1] for q in seqs])]))
    if any(q[0] != "sym" or q[2] is not TRUE for q in seqs):
        return fn("product", *[I.term(a, st) for a in args], opq=True)
    return I.alloc(st, MapL(tuple(l for q in seqs for l in q[1]), TRUE, Tup([q[3](st) for q in seqs])))


@reg("numpy.argwhere")
def np_argwhere(I, args, kw, st, node):
    w = np_where(I, args[:1], kw, st, node)
    if isinstance(w, WhereIdx):
        return Coords(w.axes, w.mask, coord_order(I, w.axes))
    return w


@reg("numpy.rot90")
def np_rot90(I, args, kw, st, node):
    w = args[0]
    if isinstance(w, WhereIdx) and len(args) == 1 and not kw:
        return Coords(w.axes, w.mask, coord_order(I, w.axes), True)
    axes, e = I.num(w, st) if len(args) == 1 and not kw else (None, None)
    if axes is not None and len(axes) == 2:  # transposed, the former second axis backwards
        mp = {l: sub(sub(L, ONE), lab(l)) for l, L in I.base_axes(axes[1]) if l}
        a = axes[1]
        return I.alloc(st, Arr((IN.Ax(a.label, a.L, a.parts, subst(a.mask, mp)), axes[0]), subst(e, mp)))
    return fn("rot90", I.term(w, st), *[I.term(a, st) for a in list(args[1:]) + [kw[k] for k in sorted(kw)]])


@reg("numpy.arange")
def np_arange(I, args, kw, st, node):
    vals = [I.scalar(a, st) for a in args]
    d = norm_dtype(I, kw.get("dtype"), st)
    step = vals[2] if len(vals) > 2 else (I.scalar(kw["step"], st) if "step" in kw else ONE)
    lo, hi = (ZERO, vals[0]) if len(vals) == 1 else (vals[0], vals[1])
    n = f_ceil(div(sub(hi, lo), step))
    l = I.fresh("i", n)
    return I.alloc(st, Arr((ax(l, n),), cast(I, add(lo, mul(step, lab(l))), d) if dtype_class(d) != "int" or True else None, d))


@reg("numpy.linspace")
def np_linspace(I, args, kw, st, node):
    a, b, n = sig(args, kw, "start", "stop", "num")
    a, b = I.scalar(a, st), I.scalar(b, st)
    n = I.scalar(n, st) if n is not None else num(50)
    n = fint(n) if n.kind == "poly" else n
    l = I.fresh("i", n)
    endp = kw.get("endpoint", TRUE)
    den = sub(n, ONE) if endp is TRUE else n
    return I.alloc(st, Arr((ax(l, n),), add(a, div(mul(sub(b, a), lab(l)), den)), norm_dtype(I, kw.get("dtype"), st)))


def comps(I, axes):
    """flatten merged axes into base component axes [(label, L, mask)]"""
    out = []
    for a in axes:
        if a.parts:
            out.append(a)
        else:
            out.append(a)
    return out


@reg("numpy.reshape")
def np_reshape(I, args, kw, st, node):
    if not ignorable("order", kw.get("order")):
        return I.meth(args[0], "reshape", args[1:], kw, st, node)
    a = args[0]
    shp = args[1] if len(args) == 2 else (Tup(args[1:]) if len(args) > 2 else kw.get("shape", kw.get("newshape")))
    if isinstance(a, Phi):
        return I.merge_val(a.c, np_reshape(I, [a.a, shp], kw, st, node), np_reshape(I, [a.b, shp], kw, st, node), st, st, st)
    dims = shape_list(I, shp, st)
    axes, e = I.num(a, st)
    if axes is None or dims is None:
        return I.alloc(st, Arr(None, fn("reshape", I.term(a, st), I.term(shp, st))))
    r = do_reshape(I, axes, e, dims)
    if r is None:
        out = axes_for(I, [sym("dim?") if const_val(d) == -1 else d for d in dims])
        return I.alloc(st, Arr(out, fn("reshape", I.term(a, st), I.term(shp, st), *[lab(x.label) for x in out if x.label]), None))
    out, e2 = r
    o = st.heap[a.id] if I.isarr(a, st) else None
    org = o.org if o else frozenset()
    base = None
    if o is not None:
        base = (a.id, lambda z, a_, b_: a_.expr if e2 is e else fn("viewwrite", opq=True))
    if not out:
        return e2
    return I.alloc(st, Arr(tuple(out), e2, o.dtype if o else None, org, base))


def do_reshape(I, axes, e, dims):
    # source components (unmerge merged axes first unless masked)
    src = []
    for a in axes:
        if a.parts and a.mask is TRUE:
            src += list(a.parts)
        elif a.label is None and not a.parts:
            continue
        else:
            src.append(a)
    total = ONE
    for s in src:
        total = mul(total, s.L)
    if any(const_val(d) == -1 for d in dims):
        known = ONE
        for d in dims:
            if const_val(d) != -1:
                known = mul(known, d)
        miss = div(total, known)
        dims = [miss if const_val(d) == -1 else d for d in dims]
    out = []
    i = 0
    dims = list(dims)
    mp = {}
    n = 0
    while n < len(dims):
        d = dims[n]
        if d is ONE:
            out.append(ONE_AX)
            n += 1
            continue
        # merge consecutive sources until product matches
        prod, j = ONE, i
        ok = False
        while j < len(src):
            prod = mul(prod, src[j].L)
            j += 1
            if equal(prod, d):
                ok = True
                break
        if not ok:
            # split one plain source axis over several target axes
            if i < len(src) and src[i].mask is TRUE and not src[i].parts and src[i].label:
                pr, m = ONE, n
                while m < len(dims):
                    pr = mul(pr, dims[m])
                    m += 1
                    if equal(pr, src[i].L):
                        na = axes_for(I, dims[n:m])
                        idx = ZERO
                        for a, dd in zip(na, dims[n:m]):
                            idx = mul(idx, dd)
                            if a.label:
                                idx = add(idx, lab(a.label))
                        mp[src[i].label] = idx
                        out += list(na)
                        ok = True
                        break
                if ok:
                    n, i = m, i + 1
                    continue
            break
        grp = src[i:j]
        if len(grp) == 1:
            out.append(grp[0])
        else:
            if any(g.mask is not TRUE for g in grp):
                return None
            out.append(Ax("#".join(g.label for g in grp), d, tuple(grp), TRUE))
        i = j
        n += 1
    else:
        if i == len(src):
            return out, subst(e, mp) if mp else e
    # general case: linear index over the target axes, unravelled over the source axes
    if src and all(g.mask is TRUE and not g.parts and g.label for g in src):
        na = axes_for(I, dims)
        idx, mp = ZERO, {}
        for a, d in zip(na, dims):
            idx = mul(idx, d)
            if a.label:
                idx = add(idx, lab(a.label))
        for g in reversed(src[1:]):
            mp[g.label] = IN._mod(idx, g.L)
            idx = IN._floordiv(idx, g.L)
        mp[src[0].label] = idx
        return na, subst(e, mp)
    return None


@reg("builtins.divmod", "numpy.divmod")
def np_divmod(I, args, kw, st, node):
    q = I.binop("FloorDiv", args[0], args[1], st)
    r = I.binop("Mod", args[0], args[1], st)
    return Tup([q, r])


@reg("numpy.nan_to_num")
def np_nan_to_num(I, args, kw, st, node):
    if kw.get("copy", args[1] if len(args) > 1 else None) is FALSE:
        a = kw.get("x", args[0] if args else None)
        r = np_nan_to_num(I, args[:1], {k: v for k, v in kw.items() if k != "copy"}, st, node)
        if I.isarr(a, st):
            I.inplace(a, r, st, node)
            return a
        return r
    x, _, nan, pos, neg_ = sig(args, kw, "x", "copy", "nan", "posinf", "neginf")
    if pos is None and neg_ is None and (nan is None or nan is ZERO):
        return I.ew(nan_to_num, [x], st)
    ext_ = I.opaque_call("numpy.nan_to_num", args, kw, st, node, opq=True)
    if pos is None or neg_ is None:
        return I.ew(lambda a, n: ite(isnan(a), b2n(n), nan_to_num(a)), [x, nan], st) if pos is None and neg_ is None else ext_
    return I.ew(lambda a, n, p, q: ite(isnan(a), b2n(n), ite(eq(a, INF), b2n(p), ite(eq(a, neg(INF)), b2n(q), a))), [x, nan if nan is not None else ZERO, pos, neg_], st)


@reg("numpy.angle")
def np_angle(I, args, kw, st, node):
    z, deg = sig(args, kw, "z", "deg")
    r = I.ew(ufn("angle"), [z], st)
    if deg is None or deg is FALSE:
        return r
    d = I.ew(lambda x: div(mul(x, num(180)), PI), [r], st)
    return I.ew(lambda c, a, b: ite(truth(c), a, b), [deg, d, r], st)


@reg("numpy.ravel")
def np_ravel(I, args, kw, st, node):
    if "order" in kw or len(args) > 1:
        return I.meth(args[0], "ravel", args[1:], kw, st, node)
    return np_reshape(I, [args[0], Tup([num(-1)])], {}, st, node)


@reg("numpy.squeeze")
def np_squeeze(I, args, kw, st, node):
    a = args[0]
    if isinstance(a, Phi):
        return I.merge_val(a.c, np_squeeze(I, [a.a], kw, st, node), np_squeeze(I, [a.b], kw, st, node), st, st, st)
    axes, e = I.num(a, st)
    if axes is None:
        return I.alloc(st, Arr(None, fn("squeeze", e)))
    if isinstance(a, E):
        return a
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    if axis is not None:
        al = axis_list(I, axis, len(axes), st)
        if al == "x":
            return fn("squeeze", I.term(a, st))
        out = [x for i, x in enumerate(axes) if al is None or i not in al]
    else:
        out = [x for x in axes if x.label is not None or x.parts]
    o = st.heap[a.id] if I.isarr(a, st) else None
    return I.alloc(st, Arr(tuple(out), e, o.dtype if o else None, o.org if o else frozenset(), (a.id, "whole") if o else None))


@reg("numpy.expand_dims")
def np_expand_dims(I, args, kw, st, node):
    a, axis = sig(args, kw, "a", "axis")
    axes, e = I.num(a, st)
    if axes is None:
        return I.alloc(st, Arr(None, fn("expand_dims", e, I.term(axis, st))))
    if isinstance(a, E) and not I.is_scalar_num(a):
        return fn("expand_dims", a, I.term(axis, st))
    al = axis_list(I, axis, len(axes) + 1 if isinstance(axis, E) else len(axes) + len(I.aslist(axis, st) or []), st)
    if al == "x" or al is None:
        return fn("expand_dims", I.term(a, st), I.term(axis, st))
    out = list(axes)
    for k in sorted(al):
        out.insert(k, ONE_AX)
    o = st.heap[a.id] if I.isarr(a, st) else None
    return I.alloc(st, Arr(tuple(out), e, o.dtype if o else None, o.org if o else frozenset(), (a.id, "whole") if o else None))


@reg("numpy.transpose")
def np_transpose(I, args, kw, st, node):
    a = args[0]
    if isinstance(a, Phi):
        return I.merge_val(a.c, np_transpose(I, [a.a] + list(args[1:]), kw, st, node), np_transpose(I, [a.b] + list(args[1:]), kw, st, node), st, st, st)
    axes, e = I.num(a, st)
    if axes is None:
        return I.alloc(st, Arr(None, fn("transpose", I.term(a, st))))
    perm = args[1] if len(args) == 2 else (Tup(args[1:]) if len(args) > 2 else kw.get("axes"))
    if perm is not None and perm is not NONE:
        al = axis_list(I, perm, len(axes), st)
        if al == "x" or al is None:
            return fn("transpose", I.term(a, st), I.term(perm, st))
    else:
        al = list(reversed(range(len(axes))))
    o = st.heap[a.id] if I.isarr(a, st) else None
    return I.alloc(st, Arr(tuple(axes[k] for k in al), e, o.dtype if o else None, o.org if o else frozenset(), (a.id, "whole") if o else None))


@reg("numpy.swapaxes")
def np_swapaxes(I, args, kw, st, node):
    a, s, d = sig(args, kw, "a", "axis1", "axis2")
    axes, e = I.num(a, st)
    if axes is None or (axes == () and isinstance(a, E)):
        return fn("swapaxes", I.term(a, st), I.term(s, st), I.term(d, st))
    sl, dl = axis_list(I, s, len(axes), st), axis_list(I, d, len(axes), st)
    if "x" in (sl, dl):
        return fn("swapaxes", I.term(a, st), I.term(s, st), I.term(d, st))
    order = list(range(len(axes)))
    i, j = sl[0], dl[0]
    order[i], order[j] = order[j], order[i]
    o = st.heap[a.id] if I.isarr(a, st) else None
    return I.alloc(st, Arr(tuple(axes[k] for k in order), e, o.dtype if o else None, o.org if o else frozenset(), (a.id, "whole") if o else None))


@reg("numpy.rollaxis")
def np_rollaxis(I, args, kw, st, node):
    a, s, d = sig(args, kw, "a", "axis", "start")
    axes, e = I.num(a, st)
    s, d = (const_val(x) if isinstance(x, E) and x.kind == "poly" else None for x in (s, ZERO if d is None else d))
    if not axes or s is None or d is None:
        return fn("rollaxis", *[I.term(x, st) for x in args])
    n = len(axes)
    s, d = int(s) % n, int(d) + (n if d < 0 else 0)
    if s < d:
        d -= 1
    return np_moveaxis(I, [a, num(s), num(d)], {}, st, node)


@reg("numpy.moveaxis")
def np_moveaxis(I, args, kw, st, node):
    a, s, d = sig(args, kw, "a", "source", "destination")
    axes, e = I.num(a, st)
    if axes is None or (axes == () and isinstance(a, E)):
        return fn("moveaxis", I.term(a, st), I.term(s, st), I.term(d, st))
    n = len(axes)
    sl, dl = axis_list(I, s, n, st), axis_list(I, d, n, st)
    if "x" in (sl, dl):
        return fn("moveaxis", I.term(a, st), I.term(s, st), I.term(d, st))
    order = [k for k in range(n) if k not in sl]
    for dd, ss in sorted(zip(dl, sl)):
        order.insert(dd, ss)
    o = st.heap[a.id] if I.isarr(a, st) else None
    return I.alloc(st, Arr(tuple(axes[k] for k in order), e, o.dtype if o else None, o.org if o else frozenset(), (a.id, "whole") if o else None))


@reg("numpy.outer")
def np_outer(I, args, kw, st, node):
    (xa, xe), (ya, ye) = I.num(args[0], st), I.num(args[1], st)
    if xa is None or ya is None or len(xa) != 1 or len(ya) != 1:
        return fn("outer", I.term(args[0], st), I.term(args[1], st))
    mp = {}
    b = I.dedupe(ya[0], {xa[0].label: 0}, 1, mp)
    return I.arr(st, (xa[0], b), mul(xe, subst(ye, mp) if mp else ye))


@reg("numpy.tile")
def np_tile(I, args, kw, st, node):
    a, reps = sig(args, kw, "A", "reps")
    axes, e = I.num(a, st)
    rl = shape_list(I, reps, st)
    if axes is None or rl is None:
        return I.alloc(st, Arr(None, fn("tile", I.term(a, st), I.term(reps, st))))
    axes = list(axes)
    while len(axes) < len(rl):
        axes.insert(0, ONE_AX)
    while len(rl) < len(axes):
        rl.insert(0, ONE)
    mp = {}
    out = []
    for x, r in zip(axes, rl):
        if r is ONE:
            out.append(x)
        elif x.label is None and not x.parts:
            out.append(ax(I.fresh("t", r), r))
        else:
            nl = I.fresh("t", mul(x.L, r))
            mp[x.label] = IN._mod(lab(nl), x.L)
            out.append(ax(nl, mul(x.L, r)))
    return I.alloc(st, Arr(tuple(out), subst(e, mp) if mp else e))


@reg("numpy.repeat")
def np_repeat(I, args, kw, st, node):
    a, r, axis = sig(args, kw, "a", "repeats", "axis")
    axes, e = I.num(a, st)
    al = axis_list(I, axis, len(axes or ()), st)
    r = I.scalar(r, st)
    if axes is None or al == "x":
        return fn("repeat", I.term(a, st), r)
    if al is None:
        if not axes:
            return I.alloc(st, Arr((ax(I.fresh("t", r), r),), e))
        if len(axes) > 1:
            return fn("repeat", I.term(a, st), r)
        al = [0]
    k = al[0]
    x = axes[k]
    nl = I.fresh("t", mul(x.L, r))
    out = list(axes)
    out[k] = ax(nl, mul(x.L, r))
    mp = {x.label: IN._floordiv(lab(nl), r)} if x.label else {}
    return I.alloc(st, Arr(tuple(out), subst(e, mp) if mp else e))


@reg("numpy.stack", "numpy.vstack", "numpy.hstack", "numpy.append")
def np_stack(I, args, kw, st, node):
    nm = I.cur_ext.split(".")[-1]
    if nm == "append":
        items = list(args[:2])
        axis = kw.get("axis", args[2] if len(args) > 2 else NONE)
        if axis is NONE:  # flattened
            for i, x in enumerate(items):
                axes, e = I.num(x, st)
                if axes is None or len(axes) > 1:
                    items[i] = I.call(IN.Meth(x, "ravel"), [], {}, st, node)
            axis = ZERO
        if any(isinstance(x, E) and x.kind == "fn" and x.d[0] == "ravel" for x in items):
            return fn("append", *[I.term(x, st) for x in args])
        return np_concat(I, [I.alloc(st, Lst(items)), axis], {}, st, node)
    items = I.aslist(args[0], st)
    if items is None:
        axis = kw.get("axis", args[1] if len(args) > 1 else ZERO)
        if nm in ("stack", "vstack") and isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], MapL):
            axes, e = I.num(args[0], st)
            al = axis_list(I, axis, len(axes), st) if axes else "x"
            if axes and al not in (None, "x") and (nm == "stack" or len(axes) == 2):
                r = I.alloc(st, Arr(axes, b2n(e)))
                return r if al[0] == 0 else np_moveaxis(I, [r, ZERO, num(al[0])], {}, st, node)
        return fn(nm, *[I.term(x, st) for x in args])
    axis = kw.get("axis", args[1] if len(args) > 1 else ZERO)
    nd = [I.num(x, st)[0] for x in items]
    if any(a is None for a in nd):
        return fn(nm, *[I.term(x, st) for x in items])
    if nm == "hstack":
        return np_concat(I, [args[0], ONE if len(nd[0]) > 1 else ZERO], {}, st, node)
    if nm == "stack":
        al = axis_list(I, axis, len(nd[0]) + 1, st)
        if al in (None, "x"):
            return fn(nm, *[I.term(x, st) for x in items])
        axis = num(al[0])
        if not nd[0]:
            return np_concat(I, [args[0], ZERO], {}, st, node)
        items = [np_expand_dims(I, [x, axis], {}, st, node) for x in items]
    else:
        axis = ZERO
        items = [np_expand_dims(I, [x, ZERO], {}, st, node) if len(a) == 1 else x for x, a in zip(items, nd)]
        if any(len(a) == 0 for a in nd):
            return fn(nm, *[I.term(x, st) for x in items])
    return np_concat(I, [I.alloc(st, Lst(items)), axis], {}, st, node)


def joined(I, name, k, st, node):
    """np.r_[...]: arrays joined along the first axis, or as its directive says"""
    items = list(k.items) if isinstance(k, Tup) else [k]
    bad = lambda: fn(name[6:], *[I.term(x, st) for x in items], opq=True)
    if name == "numpy.c_" and all(len(I.num(x, st)[0] or ()) == 1 for x in items):
        return np_colstack(I, [I.alloc(st, Lst(items))], {}, st, node)
    if name != "numpy.r_" or any(isinstance(x, SliceV) for x in items):
        return bad()
    d = ()
    if isinstance(items[0], E) and is_str_const(items[0]):
        try:
            d = tuple(int(x) for x in str_const(items.pop(0)).split(","))
        except ValueError:
            return bad()
    nd = [I.num(x, st)[0] for x in items]
    if any(a is None for a in nd) or len(d) > 2:
        return bad()
    want = max([len(a) for a in nd] + [1] + [d[1] if len(d) == 2 else 1])
    for i, a in enumerate(nd):  # new axes come first
        if not a:
            items[i] = np_atleast1(I, [items[i]], {}, st, node)
        for _ in range(want - max(len(a), 1)):
            items[i] = np_expand_dims(I, [items[i], ZERO], {}, st, node)
    return np_concat(I, [I.alloc(st, Lst(items)), num(d[0] if d else 0)], {}, st, node)


@reg("scipy.ndimage.map_coordinates", "scipy.ndimage.interpolation.map_coordinates")
def map_coordinates(I, args, kw, st, node):
    """multilinear interpolation (order 1): a blank sample blanks every point whose cell touches it, whatever its weight"""
    a = dict(zip(("input", "coordinates", "output", "order", "mode", "cval", "prefilter"), args))
    a.update(kw)
    cs = I.aslist(a["coordinates"], st)
    axes, _ = I.num(a["input"], st)
    opq = lambda: fn("map_coordinates", *[I.term(a[n], st) for n in sorted(a)], opq=True)
    if cs is None or axes is None or len(axes) != len(cs) or const_val(a.get("order", num(3))) != 1 or not set(a) <= {"input", "coordinates", "order", "prefilter"} or any(x.mask is not TRUE or x.parts for x in axes):
        return opq()
    L = [x.L for x in axes]
    lo = [I.ew(lambda c: f_floor(c), [c], st) for c in cs]
    hi = [I.ew(lambda c, n=n: ite(T.compare("<", sub(n, num(2)), c), ite(eq(n, ONE), ZERO, sub(n, num(2))), add(c, ONE)), [c], st) for c, n in zip(lo, L)]  # mirrored at the edge
    import itertools
    corners = []
    for pick in itertools.product((0, 1), repeat=len(cs)):
        idx = [(lo, hi)[p][i] for i, p in enumerate(pick)]
        corners.append((pick, I.getitem(a["input"], Tup(idx), st, node)))

    def point(*v):
        c, w = v[: len(cs)], v[len(cs):]
        s, blank, out = ZERO, FALSE, FALSE
        for (pick, _), x in zip(corners, w):
            f = ONE
            for y, p in zip(c, pick):
                t = sub(y, f_floor(y))
                f = mul(f, t if p else sub(ONE, t))
            s = add(s, mul(f, x))
            blank = or_(blank, isnan(x))
        for y, n in zip(c, L):
            out = or_(out, T.compare("<", y, ZERO), T.compare("<", sub(n, ONE), y))
        return ite(out, ZERO, ite(blank, T.NAN, s))
    return I.ew(lambda *v: lift("mapc", point, *v), list(cs) + [x for _, x in corners], st)


@reg("numpy.concatenate")
def np_concat(I, args, kw, st, node, name="concatenate"):
    if len(args) >= 2 and not (isinstance(args[1], E) and const_val(args[1]) is not None and I.aslist(args[0], st) is not None):
        items = [args[0], args[1]]
        axis = kw.get("axis", args[2] if len(args) > 2 else None)
    else:
        items = I.aslist(args[0], st)
        axis = kw.get("axis", args[1] if len(args) > 1 else ZERO)
    if items is None:
        return fn("concat", *[I.term(x, st) for x in args])
    parts = [I.num(x, st) for x in items]
    if any(a is None for a, e in parts):
        return fn("concat", *[I.term(x, st) for x in items])
    if all(len(a) <= 1 for a, e in parts):
        parts = [((ONE_AX,), e) if not a else (a, e) for a, e in parts]
        k = 0
    else:
        nd = len(parts[0][0])
        al = axis_list(I, axis, nd, st)
        if any(len(a) != nd for a, e in parts) or al in (None, "x"):
            return fn("concat", *[I.term(x, st) for x in items])
        k = al[0]
    if any(a[k].parts for a, e in parts):
        return fn("concat", *[I.term(x, st) for x in items])
    base = lambda x: T.length(x.label) if x.label else x.L
    tot, cnt = ZERO, ZERO
    for a, e in parts:
        tot = add(tot, base(a[k]))
        cnt = add(cnt, a[k].L)
    nl = I.fresh("cc", tot)
    out = list(parts[0][0])
    off = ZERO
    segs = []
    for a, e in parts:
        rest = [x for i, x in enumerate(a) if i != k]
        ref = [x for i, x in enumerate(parts[0][0]) if i != k]
        e = I.align(ref, rest, e)
        mk_ = a[k].mask
        if a[k].label:
            s_ = {a[k].label: sub(lab(nl), off)}
            e, mk_ = subst(e, s_), subst(mk_, s_)
        off = add(off, base(a[k]))
        segs.append((off, e, mk_))
    r, m = segs[-1][1:]
    for hi, e, mk_ in reversed(segs[:-1]):
        c = compare("<", lab(nl), hi)
        r, m = ite(c, e, r), ite(c, mk_, m)
    out[k] = IN.Ax(nl, cnt, None, m)
    return I.alloc(st, Arr(tuple(out), r))


@reg("numpy.diff")
def np_diff(I, args, kw, st, node):
    axes, e = I.num(args[0], st)
    if axes is None or len(axes) != 1 or axes[0].label is None or axes[0].mask is not TRUE or axes[0].parts:
        return fn("diff", I.term(args[0], st))
    a = axes[0]
    n = sub(a.L, ONE)
    l = I.fresh("d", n)
    return I.alloc(st, Arr((ax(l, n),), sub(subst(e, {a.label: add(lab(l), ONE)}), subst(e, {a.label: lab(l)}))))


@reg("numpy.interp")
def np_interp(I, args, kw, st, node):
    x, xp, fp = sig(args, kw, "x", "xp", "fp")
    xs = [I.term(xp, st), I.term(fp, st)] + [I.term(kw[k], st) for k in ("left", "right") if k in kw]
    return I.ew(lambda z: lift("interp" + xs[0].key + xs[1].key, lambda y: fn("interp", y, *xs), z), [x], st)


@reg("numpy.sort", "builtins.sorted")
def np_sort(I, args, kw, st, node):
    a = args[0]
    its = I.iterate(a, st) if isinstance(a, Ref) and isinstance(st.heap[a.id], (Lst, Dct)) or isinstance(a, (Tup, RangeV)) else None
    if its is not None and its[0] == "known" and set(kw) <= {"reverse"} and kw.get("reverse", FALSE) in (TRUE, FALSE):
        its = its[1]
        if all(isinstance(x, E) and is_str_const(x) for x in its):
            return I.alloc(st, Lst(sorted(its, key=str_const, reverse=kw.get("reverse") is TRUE)))
        if all(isinstance(x, E) and x.kind == "poly" and const_val(x) is not None for x in its):
            return I.alloc(st, Lst(sorted(its, key=const_val, reverse=kw.get("reverse") is TRUE)))
    axes, e = I.num(a, st)
    if axes is not None and len(axes) == 1 and axes[0].label:
        l = axes[0].label
        return I.alloc(st, Arr(axes, fn("sorted", I.close_axes(axes, e), lab(l))))
    return fn("sorted", I.term(a, st), *[I.term(kw[k], st) for k in sorted(kw)])


@reg("numpy.unique")
def np_unique(I, args, kw, st, node):
    if not kw and len(args) == 1:
        axes, e = I.num(args[0], st)
        if axes is not None and len(axes) == 1 and axes[0].label and axes[0].mask is TRUE and not axes[0].parts:
            a = axes[0]
            i, j = I.fresh("u", a.L), I.fresh("u", a.L)
            T.set_length(i, a.L)
            T.set_length(j, a.L)
            ei, ej = subst(e, {a.label: lab(i)}), subst(e, {a.label: lab(j)})
            # one representative (the first occurrence) per distinct value; order is not modelled
            first = not_(red("any", j, and_(compare("<", lab(j), lab(i)), eq(ei, ej)), a.L))
            return I.alloc(st, MapL(((i, a.L),), first, ei))
    return fn("unique", I.term(args[0], st))


@reg("numpy.argsort")
def np_argsort(I, args, kw, st, node):
    axes, e = I.num(args[0], st)
    if axes is not None and len(axes) == 1 and axes[0].label:
        return I.alloc(st, Arr(axes, fn("argsort", I.close_axes(axes, e), lab(axes[0].label))))
    return fn("argsort", I.term(args[0], st))


@reg("numpy.cumsum")
def np_cumsum(I, args, kw, st, node):
    axes, e = I.num(args[0], st)
    if axes is not None and len(axes) == 1 and axes[0].label:
        return I.alloc(st, Arr(axes, fn("cumsum", I.close_axes(axes, e), lab(axes[0].label))))
    return fn("cumsum", I.term(args[0], st))


@reg("numpy.roll")
def np_roll(I, args, kw, st, node):
    a, sh, axis = sig(args, kw, "a", "shift", "axis")
    axes, e = I.num(a, st)
    al = axis_list(I, axis, len(axes or ()), st)
    if axes is None or al == "x" or (al is None and len(axes) != 1):
        return fn("roll", I.term(a, st), I.term(sh, st))
    x = axes[al[0] if al else 0]
    if x.label is None or x.parts:
        return fn("roll", I.term(a, st), I.term(sh, st))
    return I.alloc(st, Arr(axes, subst(e, {x.label: IN._mod(sub(lab(x.label), I.scalar(sh, st)), x.L)})))


@reg("numpy.flip", "numpy.flipud")
def np_flip(I, args, kw, st, node):
    axes, e = I.num(args[0], st)
    al = axis_list(I, kw.get("axis", args[1] if len(args) > 1 else None), len(axes or ()), st)
    if I.cur_ext == "numpy.flipud":
        al = [0]
    if axes is None or al == "x" or any(a.mask is not TRUE or a.parts for a in axes):
        return fn("flip", I.term(args[0], st), I.term(kw.get("axis", args[1] if len(args) > 1 else NONE), st))
    mp = {}
    for i, a in enumerate(axes):
        if (al is None or i in al) and a.label and not a.parts:
            mp[a.label] = sub(sub(a.L, ONE), lab(a.label))
    return I.alloc(st, Arr(axes, subst(e, mp)))


def einsum(I, st, subs, out, ops):
    """sum of products over the index letters that are not in `out`; None when it is not understood"""
    size, pick = {}, {}
    for s, (axes, e) in zip(subs, ops):
        if axes is None or len(axes) != len(s) or len(set(s)) != len(s) or any(a.parts or a.mask is not TRUE for a in axes):
            return None
        for c, a in zip(s, axes):
            if a.label is not None and c not in pick:
                pick[c], size[c] = I.fresh(a.label, a.L), a.L
    if any(c not in "".join(subs) for c in out) or len(set(out)) != len(out):
        return None
    p = ONE
    for s, (axes, e) in zip(subs, ops):
        p = mul(p, T.b2n(subst(e, {a.label: lab(pick[c]) for c, a in zip(s, axes) if a.label is not None})))
    for c in pick:
        if c not in out:
            p = red("sum", pick[c], p, size[c])
    if not out:
        return p
    return I.alloc(st, Arr(tuple(ax(pick[c], size[c]) if c in pick else ONE_AX for c in out), p))


@reg("numpy.einsum")
def np_einsum(I, args, kw, st, node):
    t = I.term(args[0], st)
    ops = [I.num(a, st) for a in args[1:]]
    r = None
    if T.is_str_const(t) and "." not in T.str_const(t):
        ins, _, out = T.str_const(t).replace(" ", "").partition("->")
        if "->" not in T.str_const(t):
            out = "".join(sorted(c for c in set(ins) if c != "," and ins.count(c) == 1))
        if len(ins.split(",")) == len(ops):
            r = einsum(I, st, ins.split(","), out, ops)
    return r if r is not None else fn("einsum", *[I.term(a, st) for a in args], opq=True)


@reg("numpy.tensordot")
def np_tensordot(I, args, kw, st, node):
    x, y, axes = sig(args, kw, "a", "b", "axes")
    (xa, xe), (ya, ye) = I.num(x, st), I.num(y, st)
    r = None
    k = None
    if axes is None:
        k = 2
    elif isinstance(axes, E) and axes.kind == "poly" and const_val(axes) is not None:
        k = int(const_val(axes))
    if xa is not None and ya is not None and len(xa) <= 6 and len(ya) <= 6:
        n, m = len(xa), len(ya)
        l = I.aslist(axes, st) if k is None else None
        if k is not None and k <= min(n, m):
            px, py = list(range(n - k, n)), list(range(k))
        elif l is not None and len(l) == 2:
            one = lambda v, n: [int(const_val(q)) % n for q in (I.aslist(v, st) if I.aslist(v, st) is not None else [v])] if all(isinstance(q, E) and const_val(q) is not None for q in (I.aslist(v, st) if I.aslist(v, st) is not None else [v])) else None
            px, py = one(l[0], n), one(l[1], m)
        else:
            px = py = None
        if px is not None and py is not None and len(px) == len(py):
            sx, sy = list("abcdef"[:n]), list("uvwxyz"[:m])
            for i, (a, b) in enumerate(zip(px, py)):
                sx[a] = sy[b] = "klmnop"[i]
            r = einsum(I, st, ["".join(sx), "".join(sy)], "".join(c for c in sx + sy if c not in "klmnop"), [(xa, xe), (ya, ye)])
    return r if r is not None else fn("tensordot", *[I.term(a, st) for a in args], opq=True)


@reg("numpy.dot", "numpy.matmul", "numpy.vdot", "numpy.inner")
def np_dot(I, args, kw, st, node):
    (xa, xe), (ya, ye) = I.num(args[0], st), I.num(args[1], st)
    if xa is None or ya is None or len(xa) != 1 or len(ya) != 1:
        r = None
        if xa is not None and ya is not None and len(xa) == 0 and len(ya) == 0:
            r = I.ew(B["Mult"], [args[0], args[1]], st)
        elif xa and ya and I.cur_ext != "numpy.vdot":
            x, y = "abcdef"[:len(xa) - 1] + "k", "uvwxyz"[:len(ya) - 1]
            if len(ya) == 1 or I.cur_ext == "numpy.inner":
                y += "k"
            elif I.cur_ext == "numpy.matmul" and (len(xa) > 2 or len(ya) > 2):
                y = None
            else:
                y = y[:-1] + "k" + y[-1]
            if y is not None:
                r = einsum(I, st, [x, y], x.replace("k", "") + y.replace("k", ""), [(xa, xe), (ya, ye)])
        return r if r is not None else fn("dot", I.term(args[0], st), I.term(args[1], st))
    a0 = I.ew(T.conj, [args[0]], st) if I.cur_ext == "numpy.vdot" else args[0]
    p = I.ew(B["Mult"], [a0, args[1]], st)
    return reduce_(I, "sum", p, None, st)


@reg("numpy.meshgrid")
def np_meshgrid(I, args, kw, st, node):
    one = []
    for a in args:
        axes, e = I.num(a, st)
        if axes is None or len(axes) > 1 or len(axes) == 1 and not axes[0].label:
            return fn("meshgrid", *[I.term(a, st) for a in args])
        one.append((axes, e))
    ij = "indexing" in kw and kw["indexing"] is string("ij")
    order = list(range(len(one)))
    if len(one) > 1 and not ij:
        order[0], order[1] = 1, 0
    res = []
    for k, (x, e) in enumerate(one):
        fresh = [I.fresh("g", y[0].L if y else ONE) for y, _ in one]
        v = subst(e, {x[0].label: lab(fresh[k])}) if x else e
        res.append(I.alloc(st, Arr(tuple(ax(fresh[j], one[j][0][0].L if one[j][0] else ONE, mask=x[0].mask if x and j == k else TRUE) for j in order), v)))
    return I.alloc(st, Lst(res))


@reg("numpy.column_stack")
def np_colstack(I, args, kw, st, node):
    it = I.aslist(args[0], st)
    if it is None:
        return fn("column_stack", I.term(args[0], st))
    axes, e = I.seq_num(it, st)
    if axes is None or len(axes) != 2:
        return fn("column_stack", I.term(args[0], st))
    return I.alloc(st, Arr((axes[1], axes[0]), e))


@reg("numpy.split", "numpy.hsplit")
def np_split(I, args, kw, st, node):
    n = args[1]
    return fn("split", I.term(args[0], st), I.term(n, st))


@reg("numpy.shape")
def np_shape(I, args, kw, st, node):
    return I.getattr(args[0], "shape", st, node)


@reg("numpy.size")
def np_size(I, args, kw, st, node):
    return I.getattr(args[0], "size", st, node)


@reg("numpy.ndim")
def np_ndim(I, args, kw, st, node):
    return I.getattr(args[0], "ndim", st, node)


@reg("numpy.errstate", "numpy.seterr", "warnings.catch_warnings", "warnings.simplefilter", "gc.collect", "sys.stdout.flush", "time.time", "numpy.set_printoptions")
def np_noop(I, args, kw, st, node):
    return NONE


@reg("numpy.count_nonzero")
def np_count_nonzero(I, args, kw, st, node):
    a, axis = sig(args, kw, "a", "axis")
    t = I.ew(lambda x: b2n(truth(x)), [a], st)
    return reduce_(I, "sum", t, axis, st)


for _t in ("float32", "float64", "float16", "float128", "int64", "int32", "complex64", "complex128", "int8", "uint8"):
    def _mk(t):
        def f(I, args, kw, st, node):
            return I.ew(lambda x: cast(I, x, string(t)), [args[0]], st)
        return f
    NP["numpy." + _t] = _mk(_t)


@reg("numpy.isclose", "numpy.allclose")
def np_isclose(I, args, kw, st, node):
    tol = [fn("kw:" + k, I.term(v, st)) for k, v in sorted(list(kw.items()) + list(zip(("rtol", "atol"), args[2:])))]
    r = I.ew(lambda a, b: boolatom(fn("b:isclose", *(sorted([a, b]) + tol), raw=True)), list(args[:2]), st)
    return reduce_(I, "all", r, None, st) if I.cur_ext == "numpy.allclose" else r


@reg("numpy.array_equal")
def np_array_equal(I, args, kw, st, node):
    return eq(I.term(args[0], st), I.term(args[1], st))


@reg("numpy.isscalar")
def np_isscalar(I, args, kw, st, node):
    return TRUE if isinstance(args[0], E) else FALSE


# ---------------------------------------------------------------- NUFFT
@reg("finufft.nufft1d3")
def nufft1d3(I, args, kw, st, node):
    """f[.., k] = sum_j c[.., j] exp(+/- i s[k] x[j])"""
    x, c, s = sig(args, kw, "x", "c", "s")
    isign = kw.get("isign", args[5] if len(args) > 5 else ONE)
    I.effect(st, "nufft", "nufft1d3", [x, c, s], dict(kw), node=node)
    xa, xe = I.num(x, st)
    ca, ce = I.num(c, st)
    sa, se = I.num(s, st)
    if not xa or not sa or not ca or len(xa) != 1 or len(sa) != 1:
        return fn("nufft", I.term(x, st), I.term(c, st), I.term(s, st), real=False)
    j = ca[-1]
    if not (xa[0].L is j.L) and not equal(xa[0].L, j.L):
        I.issue("shape", "NUFFT positions and strengths have different lengths (%s vs %s)" % (show(xa[0].L), show(j.L)), st, node)
    xe = I.align((j,), xa, xe)
    used = {a.label: i for i, a in enumerate(ca) if a.label}
    mp = {}
    k = I.dedupe(sa[0], used, 99, mp)
    se = subst(se, mp) if mp else se
    sg = I_ if not (isinstance(isign, E) and const_val(isign) is not None and const_val(isign) < 0) else neg(I_)
    body = mul(ce, exp(mul(sg, se, xe)))
    for l, L in reversed(I.base_axes(j)):
        body = red("sum", l, body, L)
    return I.alloc(st, Arr(tuple(ca[:-1]) + (k,), body))


# ---------------------------------------------------------------- builtins
@reg("builtins.len")
def b_len(I, args, kw, st, node):
    v = args[0]
    return I.length_of(v, st)


@reg("builtins.range", "tqdm.trange", "builtins.xrange")
def b_range(I, args, kw, st, node):
    vals = [I.scalar(a, st) for a in args]
    if any(isinstance(a, Phi) for a in args):
        pass
    lo, hi, step = (ZERO, vals[0], ONE) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else ONE)
    return RangeV(lo, hi, step)


@reg("tqdm.tqdm", "builtins.reversed_")
def b_ident(I, args, kw, st, node):
    return args[0]


@reg("builtins.iter")
def b_iter(I, args, kw, st, node):
    if len(args) != 1:
        return I.opaque_call("builtins.iter", list(args), kw, st, node)
    if isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], IN.ItL):
        return args[0]
    s = I.iterate(args[0], st)
    return I.alloc(st, IN.ItL(s[1])) if s[0] == "known" else args[0]


@reg("builtins.enumerate")
def b_enum(I, args, kw, st, node):
    return EnumV(args[0], I.scalar(args[1], st) if len(args) > 1 else I.scalar(kw.get("start", ZERO), st))


@reg("builtins.zip")
def b_zip(I, args, kw, st, node):
    if any(isinstance(a, StarArg) for a in args):
        return fn("zip*", *[I.term(a.v if isinstance(a, StarArg) else a, st) for a in args])
    return ZipV(list(args))


@reg("builtins.int")
def b_int(I, args, kw, st, node):
    if not args:
        return ZERO
    return I.ew(lambda x: lift("int", lambda z: fint(b2n(z)) if z.kind in ("poly", "bool") else fn("intof", z), x), [args[0]], st)


@reg("builtins.float")
def b_float(I, args, kw, st, node):
    v = args[0]
    if isinstance(v, E):
        def leaf(z):
            if z.kind == "str":
                if is_str_const(z):
                    try:
                        return num(float(str_const(z)))
                    except ValueError:
                        I.may_raise(st, TRUE, "ValueError")
                return fn("floatof", z)
            if z.kind == "bool":
                return b2n(z)
            return z
        r = lift("float", leaf, v)
        if v.kind == "str" and not is_str_const(v) or (v.kind == "poly" and I.is_opaque_obj(v)):
            I.may_raise(st, boolatom(fn("b:notfloat", v, raw=True)), "ValueError")
        return r
    return I.scalar(v, st)


@reg("builtins.complex")
def b_complex(I, args, kw, st, node):
    a = I.scalar(args[0], st)
    b = I.scalar(args[1], st) if len(args) > 1 else ZERO
    return add(a, mul(I_, b))


@reg("builtins.bool")
def b_bool(I, args, kw, st, node):
    return truth(I.scalar(args[0], st))


@reg("builtins.str")
def b_str(I, args, kw, st, node):
    return I.fmt(args[0], "", st) if args else string("")


@reg("builtins.repr")
def b_repr(I, args, kw, st, node):
    return strcat([fn("repr", I.term(args[0], st))])


@reg("builtins.format")
def b_format(I, args, kw, st, node):
    return I.fmt(args[0], str_const(args[1]) if len(args) > 1 and is_str_const(args[1]) else "", st)


def _pyminmax(name):
    def f(I, args, kw, st, node):
        if len(args) == 1:
            l = I.aslist(args[0], st)
            if l is not None and "key" not in kw:
                args = l
            else:
                if isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], (Arr, MapL)) and "key" not in kw:
                    return reduce_(I, name, args[0], None, st)
                if set(kw) == {"key"}:
                    return I.run("specs.npy." + name + "_by", [args[0], kw["key"]], {}, st)[0]
                return fn("py" + name, I.term(args[0], st), *[I.term(kw[k], st) for k in sorted(kw)], opq=bool(kw))
        if kw:
            return fn("py" + name, *[I.term(a, st) for a in args], *[I.term(kw[k], st) for k in sorted(kw)], opq=True)
        return minmax(name, [b2n(I.scalar(a, st)) for a in args])
    return f


NP["builtins.max"] = _pyminmax("max")
NP["builtins.min"] = _pyminmax("min")


@reg("builtins.sum")
def b_sum(I, args, kw, st, node):
    l = I.aslist(args[0], st)
    if l is not None:
        r = args[1] if len(args) > 1 else ZERO
        for x in l:
            r = I.binop("Add", r, x, st)
        return r
    return reduce_(I, "sum", args[0], ZERO if not isinstance(args[0], E) else None, st)


@reg("builtins.any")
def b_any(I, args, kw, st, node):
    l = I.aslist(args[0], st)
    if l is not None:
        r = FALSE
        for x in l:
            r = or_(r, truth(I.scalar(x, st)))
        return r
    return reduce_(I, "any", args[0], None, st)


@reg("builtins.all")
def b_all(I, args, kw, st, node):
    l = I.aslist(args[0], st)
    if l is not None:
        r = TRUE
        for x in l:
            r = and_(r, truth(I.scalar(x, st)))
        return r
    return reduce_(I, "all", args[0], None, st)


@reg("builtins.list", "builtins.tuple")
def b_list(I, args, kw, st, node, q="builtins.list"):
    if not args:
        return I.alloc(st, Lst([])) if q.endswith("list") else Tup([])
    v = args[0]
    s = I.iterate(v, st) if isinstance(v, (Tup, RangeV, ZipV, EnumV, ItemsV, Ref, Coords)) else None
    if s and s[0] == "known":
        return I.alloc(st, Lst(s[1])) if q.endswith("list") else Tup(s[1])
    if isinstance(v, (ItemsV,)):
        return v
    if s and s[0] == "sym":
        return I.alloc(st, MapL(s[1], s[2], s[3](st)))
    if isinstance(v, E) and v.kind == "str" and is_str_const(v):
        its = [string(c) for c in str_const(v)]
        return I.alloc(st, Lst(its)) if q.endswith("list") else Tup(its)
    return fn("list", I.term(v, st))


@reg("builtins.set", "builtins.frozenset")
def b_set(I, args, kw, st, node):
    if not args:
        return I.alloc(st, Lst([]))
    return b_list(I, args, kw, st, node)


@reg("builtins.dict", "collections.OrderedDict")
def b_dict(I, args, kw, st, node):
    ent = {}
    base = None
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.id], Dct):
            ent.update(st.heap[v.id].ent)
            base = st.heap[v.id].base
        else:
            s = I.iterate(v, st)
            if s[0] == "known":
                for t in s[1]:
                    k, x = I.unpack(t, 2, st, node)
                    k = I.term(k, st)
                    ent[k.key] = (k, x)
            else:
                return fn("dict", I.term(v, st))
    for k, v in kw.items():
        ke = string(k)
        ent[ke.key] = (ke, v)
    return I.alloc(st, Dct(ent, base))


@reg("builtins.isinstance")
def b_isinstance(I, args, kw, st, node):
    v, c = args[0], args[1]
    cs = I.aslist(c, st) or [c]
    names = [x.name.split(".")[-1] if isinstance(x, Ext) else (x.qual if isinstance(x, Cls) else "?") for x in cs]
    if v is NONE:
        return FALSE
    if isinstance(v, E) and v.kind == "str" or (isinstance(v, E) and v.kind == "ite" and IN.all_str(v)):
        return TRUE if "str" in names else FALSE
    if isinstance(v, Ref):
        o = st.heap[v.id]
        kind = {"Lst": "list", "MapL": "list", "Dct": "dict", "Arr": "ndarray"}.get(type(o).__name__)
        if isinstance(o, Ob):
            kind = o.cls
        if kind in names:
            return TRUE
        if "?" not in names:
            return FALSE
    if isinstance(v, Tup):
        return TRUE if "tuple" in names else FALSE
    if isinstance(v, E) and v.kind == "poly" and is_const(v):
        return TRUE if set(names) & {"int", "float", "number"} else FALSE
    if isinstance(v, E) and v.kind == "bool":
        return TRUE if "bool" in names or "int" in names else FALSE
    return boolatom(fn("b:isinstance", I.term(v, st), string(",".join(sorted(names))), raw=True))


@reg("builtins.type")
def b_type(I, args, kw, st, node):
    return fn("typeof", I.term(args[0], st))


@reg("builtins.callable")
def b_callable(I, args, kw, st, node):
    return TRUE if isinstance(args[0], (Func, Ext, Cls, Meth)) else FALSE


@reg("builtins.hasattr")
def b_hasattr(I, args, kw, st, node):
    if isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], Ob) and is_str_const(args[1]):
        return TRUE if str_const(args[1]) in st.heap[args[0].id].attrs else FALSE
    return boolatom(fn("b:hasattr", I.term(args[0], st), I.term(args[1], st), raw=True))


@reg("builtins.getattr")
def b_getattr(I, args, kw, st, node):
    if isinstance(args[1], E) and is_str_const(args[1]):
        return I.getattr(args[0], str_const(args[1]), st, node)
    return fn("getattr", I.term(args[0], st), I.term(args[1], st), opq=True)


@reg("builtins.vars")
def b_vars(I, args, kw, st, node):
    """attributes of an object (a copy: assignments through it are not followed)"""
    o = st.heap[args[0].id] if args and isinstance(args[0], Ref) else None
    if isinstance(o, Ob):
        return I.alloc(st, Dct({string(k).key: (string(k), v) for k, v in o.attrs.items()}))
    return NotImplemented


@reg("builtins.reversed")
def b_reversed(I, args, kw, st, node):
    s = I.iterate(args[0], st)
    if s[0] == "known":
        return I.alloc(st, Lst(list(reversed(s[1]))))
    r = args[0]
    if isinstance(r, RangeV) and r.step is ONE:
        return RangeV(sub(r.hi, ONE), sub(r.lo, ONE), num(-1))
    if I.isarr(r, st) and st.heap[r.id].axes:
        return I.getitem(r, SliceV(None, None, num(-1)), st, node)
    return fn("reversed", I.term(args[0], st), opq=True)


@reg("builtins.slice")
def b_slice(I, args, kw, st, node):
    a = [x if x is not NONE else None for x in args]
    return SliceV(None, a[0], None) if len(a) == 1 else SliceV(*(a + [None] * (3 - len(a))))


@reg("builtins.map")
def b_map(I, args, kw, st, node):
    seqs = [I.iterate(a, st) for a in args[1:]]
    if len(seqs) == 1:
        s = seqs[0]
        if s[0] == "known":
            return I.alloc(st, Lst([I.call(args[0], [v], {}, st, node) for v in s[1]]))
        return map_sym(I, args[0], s, st, node, False)
    return fn("map", *[I.term(a, st) for a in args], opq=True)


def map_sym(I, f, s, st, node, isolate):
    _, labels, mask, elem, _o = s
    I.loopstack.append(("map", tuple(l for l, L in labels)))
    try:
        z = st
        heap0 = dict(st.heap)
        v = I.call(f, [elem(z)], {}, z, node)
        if isolate:
            # worker runs in another process: side effects on shared objects are lost
            for k in heap0:
                st.heap[k] = heap0[k]
    finally:
        I.loopstack.pop()
    return I.alloc(st, MapL(labels, mask, v))


@reg("numpy.copyto", "numpy.putmask", "numpy.place", "numpy.put")
def np_copyto(I, args, kw, st, node):
    q = I.cur_ext
    a = args[0]
    if q == "numpy.copyto":
        _, v, _, m = sig(args, kw, "dst", "src", "casting", "where")
    elif q == "numpy.put":
        if len(args) == 3 and not kw and isinstance(args[1], E) and len(I.num(a, st)[0] or ()) == 1:
            I.setitem(a, args[1], args[2], st, node)
            return NONE
        v = m = None
    else:
        _, m, v = sig(args, kw, "a", "mask", "values")
        if v is not None and I.num(v, st)[0] != () and q == "numpy.place":
            v = None
        elif v is not None and I.num(v, st)[0] != () and not (I.num(a, st)[0] is not None and len(I.num(v, st)[0] or ()) == len(I.num(a, st)[0]) and all(I.same_len(x, y) for x, y in zip(I.num(v, st)[0], I.num(a, st)[0]))):
            v = None
    if v is None or not (isinstance(a, Ref) and isinstance(st.heap[a.id], Arr)):
        if isinstance(a, Ref) and isinstance(st.heap[a.id], Arr):
            I.inplace(a, fn("put", opq=True), st, node)
        return NONE
    if m is None or m is TRUE:
        r = I.ew(lambda x, y: b2n(x) if not is_boolish(x) else x, [v, a], st)
    else:
        r = I.ew(lambda c, x, y: ite(truth(c), b2n(x), b2n(y)), [m, v, a], st)
    I.inplace(a, r, st, node)
    return NONE


@reg("collections.namedtuple")
def namedtuple_(I, args, kw, st, node):
    l = I.aslist(args[1], st) if len(args) > 1 else None
    if l is None and len(args) > 1 and isinstance(args[1], E) and is_str_const(args[1]):
        l = [string(x) for x in str_const(args[1]).replace(",", " ").split()]
    if l is None or not all(isinstance(x, E) and is_str_const(x) for x in l) or any(k != "defaults" for k in kw):
        return I.opaque_call("collections.namedtuple", args, kw, st, node, opq=True)
    d = I.aslist(kw["defaults"], st) if "defaults" in kw else []
    return IN.Part(Ext("collections.namedtuple:make"), [Tup(l), Tup(d or [])], {})


@reg("collections.namedtuple:make")
def namedtuple_make(I, args, kw, st, node):
    names = [str_const(x) for x in args[0].items]
    vals = dict(zip(names[len(names) - len(args[1].items):], args[1].items))
    vals.update(zip(names, args[2:]))
    vals.update(kw)
    if len(args) - 2 > len(names) or set(vals) != set(names):
        I.issue("arity", "fields of the named tuple do not match the arguments", st, node)
        return fn("missing", opq=True)
    return Tup([vals[n] for n in names], names)


@reg("types.SimpleNamespace")
def simplens(I, args, kw, st, node):
    return I.alloc(st, Ob("ext:SimpleNamespace", dict(kw)))


@reg("operator.itemgetter")
def itemgetter(I, args, kw, st, node):
    return IN.Part(Ext("operator.itemgetter:get"), [Tup(args)], {})


@reg("operator.itemgetter:get")
def itemgetter_get(I, args, kw, st, node):
    ks = args[0].items
    r = [I.getitem(args[1], k, st, node) for k in ks]
    return r[0] if len(r) == 1 else Tup(r)


@reg("operator.attrgetter")
def attrgetter(I, args, kw, st, node):
    return IN.Part(Ext("operator.attrgetter:get"), [Tup(args)], {})


@reg("operator.attrgetter:get")
def attrgetter_get(I, args, kw, st, node):
    r = [I.getattr(args[1], str_const(k), st, node) for k in args[0].items]
    return r[0] if len(r) == 1 else Tup(r)


for _n_, _o_ in {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "mod": "Mod", "floordiv": "FloorDiv"}.items():
    NP["operator." + _n_] = lambda I, args, kw, st, node, o=_o_: I.binop(o, args[0], args[1], st)


@reg("numpy.vectorize")
def np_vectorize(I, args, kw, st, node):
    if len(args) == 1 and all(k == "otypes" for k in kw):
        return IN.Part(Ext("numpy.vectorize:apply"), args[:1], {})
    return I.opaque_call("numpy.vectorize", args, kw, st, node, opq=True)


@reg("numpy.vectorize:apply")
def np_vectorize_apply(I, args, kw, st, node):
    if kw:
        return I.opaque_call("numpy.vectorize", args, kw, st, node, opq=True)
    bad = []

    def one(*es):
        r = I.call(args[0], list(es), {}, st, node)
        if not isinstance(r, E):
            bad.append(r)
            return fn("vectorize", opq=True)
        return r
    r = I.ew(one, list(args[1:]), st)
    return r


@reg("numpy.fromiter")
def np_fromiter(I, args, kw, st, node):
    return np_array(I, args[:1], {}, st, node)


@reg("numpy.broadcast_to")
def np_broadcast_to(I, args, kw, st, node):
    a, shp = sig(args, kw, "array", "shape")
    return I.ew(lambda x, z: x, [a, np_zeros(I, [shp], {}, st, node)], st)


@reg("numpy.percentile", "numpy.nanpercentile", "numpy.quantile", "numpy.nanquantile")
def np_percentile(I, args, kw, st, node):
    q = I.cur_ext
    a, k, axis = sig(args, kw, "a", "q", "axis")
    v = const_val(k) if isinstance(k, E) and k.kind == "poly" else None
    if v is not None and not any(x in kw for x in ("method", "interpolation", "weights")):
        v = v / 100 if q.endswith("percentile") else v
        nan = "nan" if q.startswith("numpy.nan") else ""
        for p, f in ((0, "min"), (1, "max")):
            if v == p:
                return reduce_(I, nan + f, a, axis, st, kw.get("keepdims"), node)
        if 2 * v == 1:
            return reduce_(I, nan + "median", a, axis, st, kw.get("keepdims"), node)
    return I.opaque_call(q, args, kw, st, node)


@reg("functools.partial")
def f_partial(I, args, kw, st, node):
    return IN.Part(args[0], args[1:], kw)


def pool_map(I, f, args, st, node, ordered=True, star=False):
    """apply f to every item in worker processes: results in input order, side effects of the workers lost"""
    s = I.iterate(args[0], st)
    call = (lambda v: I.call(f, list(v.items) if isinstance(v, Tup) else [v], {}, st, node)) if star else (lambda v: I.call(f, [v], {}, st, node))
    if s[0] == "known":
        heap0 = dict(st.heap)
        out = [call(v) for v in s[1]]
        for k in heap0:
            st.heap[k] = heap0[k]
        if not ordered:
            return fn("unordered", *[I.term(v, st) for v in out])
        return I.alloc(st, Lst(out))
    r = map_sym(I, f, s, st, node, True)
    if not ordered:
        o = st.heap[r.id]
        return I.alloc(st, MapL(o.labels, o.mask, fn("unordered", I.term(o.elem, st)), o.prefix))
    return r


@reg("tqdm.contrib.concurrent.process_map", "tqdm.contrib.concurrent.thread_map")
def p_process_map(I, args, kw, st, node):
    return pool_map(I, args[0], args[1:], st, node)


@reg("multiprocessing.Pool", "multiprocessing.pool.Pool", "schwimmbad.choose_pool", "multiprocessing.pool.ThreadPool", "schwimmbad.MultiPool", "schwimmbad.SerialPool", "concurrent.futures.ProcessPoolExecutor")
def p_pool(I, args, kw, st, node):
    return I.alloc(st, IN.Ob("ext:pool", {}))


def pool_meth(I, name, args, kw, st, node):
    if name in ("map", "imap"):
        return pool_map(I, args[0], args[1:], st, node)
    if name == "imap_unordered":
        return pool_map(I, args[0], args[1:], st, node, ordered=False)
    if name == "starmap":
        return pool_map(I, args[0], args[1:], st, node, star=True)
    if name == "is_master":
        return boolatom(fn("b:is_master", raw=True))
    if name in ("close", "join", "wait", "terminate", "__enter__", "__exit__", "shutdown"):
        I.effect(st, "pool", name, args, kw, node=node)
        return NONE
    return fn("ext:pool." + name, opq=True)


@reg("builtins.print")
def b_print(I, args, kw, st, node):
    I.effect(st, "print", "print", args, kw, node=node)
    return NONE


@reg("builtins.next")
def b_next(I, args, kw, st, node):
    if isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], IN.ItL):
        v = I.take(args[0], st)
        if v is not None:
            return v
        if len(args) > 1:
            return args[1]
        I.do_raise(st, "StopIteration", node)
        return BOTTOM
    s = I.iterate(args[0], st)
    if s[0] == "known" and s[1]:
        return s[1][0]
    return fn("next", I.term(args[0], st), opq=True)


@reg("builtins.open")
def b_open(I, args, kw, st, node):
    I.effect(st, "open", "open", args, kw, node=node)
    I.may_raise(st, boolatom(fn("b:openfails", I.term(args[0], st), raw=True)), "FileNotFoundError")
    return fn("file", I.term(args[0], st), *[I.term(a, st) for a in args[1:]], *[fn("kw:" + k, I.term(kw[k], st)) for k in sorted(kw)])


@reg("sys.exit", "os._exit")
def b_exit(I, args, kw, st, node):
    I.effect(st, "exit", "exit", args, kw, node=node)
    if I.trystack:
        I.trystack[-1].append((st.guard, "SystemExit"))
    return BOTTOM


# ---------------------------------------------------------------- os.path
@reg("os.path.join")
def p_join(I, args, kw, st, node):
    ts = [I.term(a, st) for a in args]

    def f(*xs):
        parts = []
        for i, x in enumerate(xs):
            if i:
                if not (parts and isinstance(parts[-1], str) and parts[-1].endswith("/")):
                    if not (len(parts) == 0):
                        parts.append("/")
            parts += list(x.d) if x.kind == "str" else [fn("str", x)]
        return strcat(parts)
    return lift("pjoin", f, *ts)


@reg("os.path.split")
def p_split(I, args, kw, st, node):
    t = I.term(args[0], st)
    return Tup([p_fn("dirname", t), p_fn("basename", t)])


def p_fn(name, t):
    def leaf(x):
        if is_str_const(x):
            import os.path as P
            return string(getattr(P, name)(str_const(x)))
        if x.kind == "str" and x.d:
            # literal tail without separators stays visible through basename
            last = x.d[-1]
            if name == "basename":
                for i in range(len(x.d) - 1, -1, -1):
                    q = x.d[i]
                    if isinstance(q, str) and "/" in q:
                        return strcat([q.rpartition("/")[2]] + list(x.d[i + 1:])) if not any(isinstance(z, E) and not _noslash(z) for z in x.d[i + 1:]) else strcat([fn(name, x)])
            if name == "dirname":
                for i in range(len(x.d) - 1, -1, -1):
                    q = x.d[i]
                    if isinstance(q, str) and "/" in q and not any(isinstance(z, E) and not _noslash(z) for z in x.d[i + 1:]):
                        return strcat(list(x.d[:i]) + [q.rpartition("/")[0]])
        return strcat([fn(name, x)])
    return lift("path:" + name, leaf, t)


def _noslash(z):
    at = single_atom(z) if z.kind == "poly" else z
    if at is not None and at.kind == "fn" and at.d[0] in ("basename", "str", "stem", "ext") or (at is not None and at.kind == "fn" and at.d[0].startswith("fmt:")):
        return True
    return False


@reg("os.path.basename")
def p_base(I, args, kw, st, node):
    return p_fn("basename", I.term(args[0], st))


@reg("os.path.dirname")
def p_dir(I, args, kw, st, node):
    return p_fn("dirname", I.term(args[0], st))


@reg("os.path.abspath", "os.path.realpath", "os.path.expanduser", "os.path.normpath")
def p_abs(I, args, kw, st, node):
    import os.path as P
    return lift("abspath", lambda x: string(P.normpath(str_const(x))) if is_str_const(x) and str_const(x).startswith("/") else strcat([fn("abspath", x)]), I.term(args[0], st))


def _re(name, params):
    @reg("re." + name)
    def h(I, args, kw, st, node):
        import re
        a = dict(zip(params, args))
        a.update(kw)
        ts = {k: I.term(v, st) for k, v in a.items()}

        def leaf(x):
            k = {}
            for p, v in dict(ts, string=x).items():
                c = str_const(v) if is_str_const(v) else (const_val(v) if is_const(v) else None)
                if c is None:
                    return None
                k[p] = c if isinstance(c, str) else int(c)
            return getattr(re, name)(**k)
        if name == "sub":
            def g(x):
                r = leaf(x)
                return string(r) if r is not None else strcat([fn("re.sub", *[dict(ts, string=x)[p] for p in sorted(ts)])])
            return lift("re.sub", g, ts["string"])
        r = leaf(ts["string"])
        if r is None:
            return fn("re." + name, *[ts[p] for p in sorted(ts)], opq=True)
        if isinstance(r, list):
            if not all(isinstance(x, str) for x in r):
                raise Abort("groups of %s" % name)
            return I.alloc(st, Lst([string(x) for x in r]))
        if r is None:
            return NONE
        return r
    return h


_re("sub", ("pattern", "repl", "string", "count", "flags"))
_re("split", ("pattern", "string", "maxsplit", "flags"))
_re("findall", ("pattern", "string", "flags"))


@reg("re.compile")
def re_compile(I, args, kw, st, node):
    t = I.term(args[0], st)
    f = args[1] if len(args) > 1 else kw.get("flags", ZERO)
    if not is_str_const(t):
        return I.opaque_call("re.compile", list(args), kw, st, node)
    return I.alloc(st, IN.Ob("ext:re", {"pattern": t, "flags": f}))


def _re_match(name):
    @reg("re." + name)
    def h(I, args, kw, st, node):
        import re
        a = dict(zip(("pattern", "string", "flags"), args))
        a.update(kw)
        p, x = I.term(a["pattern"], st), I.term(a["string"], st)
        f = const_val(a["flags"]) if "flags" in a else 0
        if not is_str_const(p) or not is_str_const(x) or f is None:
            return I.opaque_call("re." + name, list(args), kw, st, node)
        r = getattr(re, name)(str_const(p), str_const(x), int(f))
        if r is None:
            return NONE
        gs = [NONE if g is None else string(g) for g in (r.group(0),) + r.groups()]
        return I.alloc(st, IN.Ob("ext:match", {"all": Tup(gs), "first": num(r.start()), "last": num(r.end())}))


for _n in ("match", "search", "fullmatch"):
    _re_match(_n)


def re_meth(I, o, name, args, kw, st, node):
    """methods of compiled patterns and matches; None: not one of them"""
    if o.cls == "ext:re" and name in ("sub", "split", "findall", "match", "search", "fullmatch"):
        k = dict(kw, pattern=o.attrs["pattern"])
        k.update(zip(("repl", "string", "count") if name == "sub" else ("string", "maxsplit"), args))
        if const_val(o.attrs["flags"]) != 0:
            k["flags"] = o.attrs["flags"]
        return I.call(IN.Ext("re." + name), [], k, st, node)
    if o.cls == "ext:match":
        gs = o.attrs["all"].items
        if name == "groups":
            return Tup(list(gs[1:]))
        if name == "group" and all(isinstance(a, E) and const_val(a) is not None for a in args):
            r = [gs[int(const_val(a))] for a in args] or [gs[0]]
            return r[0] if len(r) == 1 else Tup(r)
        if name in ("start", "end") and not args:
            return o.attrs["first" if name == "start" else "last"]
    return None


@reg("os.path.splitext")
def p_splitext(I, args, kw, st, node):
    t = I.term(args[0], st)

    def stem(x):
        if x.kind == "str" and x.d:
            last = x.d[-1]
            if isinstance(last, str) and "." in last.rpartition("/")[2]:
                return strcat(list(x.d[:-1]) + [last[: last.rindex(".")]])
            at = last if isinstance(last, E) and last.kind != "poly" else (single_atom(last) if isinstance(last, E) else None)
        return strcat([fn("stem", x)])

    def ext(x):
        if x.kind == "str" and x.d:
            last = x.d[-1]
            if isinstance(last, str) and "." in last.rpartition("/")[2]:
                return string(last[last.rindex("."):])
        return strcat([fn("ext", x)])
    return Tup([lift("stem", stem, t), lift("ext", ext, t)])


@reg("os.path.exists", "os.path.isfile", "os.path.isdir")
def p_exists(I, args, kw, st, node):
    return boolatom(fn("b:exists", I.term(args[0], st), raw=True))


@reg("numpy.loadtxt", "numpy.genfromtxt")
def np_loadtxt(I, args, kw, st, node):
    I.effect(st, "read", "loadtxt", args, kw, node=node)
    t = I.term(args[0], st)
    I.may_raise(st, boolatom(fn("b:loadfails", t, raw=True)), "FileNotFoundError")
    extra = [fn("kw:" + k, I.term(kw[k], st)) for k in sorted(kw) if k not in ("dtype",)]
    return fn("loadtxt", t, *extra)


@reg("numpy.savetxt")
def np_savetxt(I, args, kw, st, node):
    I.effect(st, "write", "savetxt", args, kw, node=node)
    return NONE


@reg("json.dump")
def j_dump(I, args, kw, st, node):
    I.effect(st, "write", "json.dump", args, kw, node=node)
    return NONE


@reg("json.dumps")
def j_dumps(I, args, kw, st, node):
    return strcat([fn("json", I.term(args[0], st))])


@reg("copy.copy", "copy.deepcopy")
def c_copy(I, args, kw, st, node):
    if I.cur_ext == "copy.deepcopy":
        return deep_copy(I, args[0], st)
    return copy_value(I, args[0], st)


def deep_copy(I, v, st):
    if isinstance(v, Tup):
        return Tup([deep_copy(I, x, st) for x in v.items], v.names, v.cls)
    r = copy_value(I, v, st)
    if isinstance(r, Ref):
        o = st.heap[r.id]
        if isinstance(o, Lst):
            st.heap[r.id] = Lst([deep_copy(I, x, st) for x in o.items])
        elif isinstance(o, Dct):
            st.heap[r.id] = Dct({k: (a, deep_copy(I, x, st)) for k, (a, x) in o.ent.items()}, o.base, frozenset(), o.kind)
        elif isinstance(o, Ob):
            st.heap[r.id] = Ob(o.cls, {k: deep_copy(I, x, st) for k, x in o.attrs.items()})
    return r


def copy_value(I, v, st):
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, Arr):
            return I.alloc(st, Arr(o.axes, o.expr, o.dtype))
        if isinstance(o, Lst):
            return I.alloc(st, Lst(o.items))
        if isinstance(o, Dct):
            return I.alloc(st, Dct(o.ent, o.base, frozenset(), o.kind))
        if isinstance(o, Ob):
            return I.alloc(st, Ob(o.cls, o.attrs))
        return I.alloc(st, o)
    if isinstance(v, Phi):
        return Phi(v.c, copy_value(I, v.a, st), copy_value(I, v.b, st))
    return v


# ---------------------------------------------------------------- dispatch
PYF = {"functools.reduce": "reduce", "itertools.chain": "chain", "itertools.chain.from_iterable": "chain_from", "itertools.compress": "it_compress", "itertools.starmap": "starmap", "builtins.filter": "filter_", "itertools.islice": "islice"}
NPY = {  # functions given in the analysed language itself (specs/npy.py)
    "numpy.clip": "clip", "numpy.average": "average", "numpy.ma.average": "average", "numpy.select": "select", "numpy.choose": "choose", "numpy.extract": "extract",
    "numpy.compress": "compress", "numpy.take": "take", "numpy.polyval": "polyval", "numpy.polynomial.polynomial.polyval": "polynomial_polyval", "numpy.ptp": "ptp",
    "numpy.linalg.norm": "norm", "numpy.trapz": "trapz", "numpy.trapezoid": "trapz", "scipy.integrate.trapezoid": "trapz",
    "numpy.isreal": "isreal", "numpy.copysign": "copysign", "numpy.expm1": "expm1", "numpy.log1p": "log1p", "numpy.isposinf": "isposinf", "numpy.isneginf": "isneginf",
    "numpy.isin": "isin", "numpy.in1d": "isin",
}
# library functions left uninterpreted (equal arguments, equal result); other unmodelled numpy functions are opaque
FULL = SliceV(None, None, None)
UNINT = {"numpy.diagonal", "numpy.percentile", "numpy.quantile", "numpy.nanpercentile", "numpy.nanquantile", "numpy.iscomplexobj", "numpy.finfo", "numpy.histogram", "numpy.dtype", "numpy.polyfit", "numpy.ndarray", "numpy.searchsorted", "numpy.digitize",
         "numpy.linalg.inv", "numpy.linalg.lstsq", "numpy.linalg.solve", "numpy.linalg.det", "numpy.cov", "numpy.corrcoef", "numpy.convolve", "numpy.gradient", "numpy.savez"}
BENIGN = {"dtype", "copy", "casting", "subok", "like", "kind", "stable", "check", "check_finite", "optimize", "order", "interpolation", "decimals"}
TRIVIAL = {"order": ("C", "K", "A"), "copy": None}
REDUCERS = {"sum", "nansum", "mean", "nanmean", "max", "min", "nanmax", "nanmin", "any", "all", "std", "var", "prod", "nanstd", "nanvar"}


def _names(code, out):
    out.update(code.co_varnames[:code.co_argcount])
    for c in code.co_consts:
        if isinstance(c, str):
            out.add(c)
        elif isinstance(c, (tuple, frozenset)):
            out.update(x for x in c if isinstance(x, str))
        elif hasattr(c, "co_consts"):
            _names(c, out)
    return out


_HAND = {}


def handled(f):
    """names of the keyword arguments a model looks at"""
    if f not in _HAND:
        _HAND[f] = _names(f.__code__, set())
    return _HAND[f]


def ignorable(k, v):
    """keyword argument which does not change the result"""
    if v is NONE or v is None:
        return True
    if k == "order":
        return isinstance(v, E) and is_str_const(v) and str_const(v) in ("C", "K", "A")
    if k in ("keepdims", "overwrite_input", "assume_unique", "hold"):
        return v is FALSE
    if k == "ddof":
        return v is ZERO
    return k in BENIGN


def ufunc_like(q):
    f = NP.get(q)
    return f is not None and f.__code__ in UFUNC_CODES


UFUNC_CODES = {_ewfn(None).__code__, _ew2(None).__code__}


def special_kw(I, q, args, kw, st, node):
    """out=, where=, ddof=, initial=: rewritten in terms of the plain function; NotImplemented when there is none of them"""
    short = q.rsplit(".", 1)[1]
    uf = ufunc_like(q)
    nin = 1 if uf and NP[q].__code__ is _ewfn(None).__code__ else 2
    if uf and len(args) == nin + 1 and not any(isinstance(a, StarArg) for a in args):
        kw = dict(kw)
        kw["out"] = args[nin]
        args = list(args[:nin])
    names = {k for k in ("out", "where", "ddof", "initial") if k in kw and kw[k] is not NONE}
    if uf is False and short not in REDUCERS and "out" not in names:
        return NotImplemented
    if "where" in names and kw["where"] is TRUE:
        names.discard("where")
    if "ddof" in names and kw["ddof"] is ZERO:
        names.discard("ddof")
    rest = {k: v for k, v in kw.items() if k not in ("out", "where", "ddof", "initial")}
    if not names:
        return I.ext(q, args, rest, st, node) if len(rest) != len(kw) else NotImplemented
    r = None
    if short in REDUCERS:
        if "where" in names:
            if "ddof" in names:
                return NotImplemented
            a = I.ew(lambda x, m: ite(truth(m), b2n(x), MASKED), [args[0], kw["where"]], st)
            r = I.ext(q, [a] + list(args[1:]), rest, st, node)
        elif "ddof" in names:
            if short not in ("var", "std", "nanvar", "nanstd"):
                return NotImplemented
            v = I.ext("numpy." + short[:-3] + "var", list(args), rest, st, node)
            base = I.ew(lambda x: ite(isnan(x), NAN, ONE), [args[0]], st) if short.startswith("nan") else I.ew(lambda x: ONE, [args[0]], st)
            n = I.ext("numpy.nansum" if short.startswith("nan") else "numpy.sum", [base] + list(args[1:]), rest, st, node)
            r = I.binop("Div", I.binop("Mult", v, n, st), I.binop("Sub", n, kw["ddof"], st), st)
            if short.endswith("std"):
                r = I.ext("numpy.sqrt", [r], {}, st, node)
        else:
            r = I.ext(q, args, rest, st, node)
        if "initial" in names:
            op = {"sum": "Add", "nansum": "Add", "prod": "Mult"}.get(short)
            if op:
                r = I.binop(op, r, kw["initial"], st)
            elif short in ("max", "min", "nanmax", "nanmin"):
                r = I.ext("numpy.maximum" if short.endswith("max") else "numpy.minimum", [r, kw["initial"]], {}, st, node)
            else:
                return NotImplemented
    else:
        r = I.ext(q, args, rest, st, node)
        if "where" in names:
            if "out" not in names:
                r = I.ew(lambda m, x: ite(truth(m), b2n(x), fn("uninitialised", opq=True)), [kw["where"], r], st)
    if "out" in names:
        o = kw["out"]
        if isinstance(o, Tup) and len(o.items) == 1:
            o = o.items[0]
        if not (isinstance(o, Ref) and isinstance(st.heap[o.id], Arr)):
            return NotImplemented
        if "where" in names and short not in REDUCERS:
            r = I.ew(lambda m, x, y: ite(truth(m), b2n(x), b2n(y)), [kw["where"], r, o], st)
        I.inplace(o, r, st, node)
        return o
    return r


def ext(self, q, args, kw, st, node):
    q = ALIAS.get(q, q)
    if q.startswith("numpy."):
        if kw or len(args) in (2, 3) and ufunc_like(q):
            r = special_kw(self, q, args, kw, st, node)
            if r is not NotImplemented:
                return r
        if q in NPY:
            f = self.repo.resolve("specs.npy." + NPY[q])[2]
            names = {a.arg for a in f.args.args}
            if all(k in names or ignorable(k, v) for k, v in kw.items()):
                return self.run("specs.npy." + NPY[q], list(args), {k: v for k, v in kw.items() if k in names}, st)[0]
            return self.opaque_call(q, args, kw, st, node, opq=True)
    if q in PYF and not kw:
        return self.run("specs.npy." + PYF[q], list(args), {}, st)[0]
    self.cur_ext = q
    f = NP.get(q)
    if f is None and q.startswith("numpy.") and q not in UNINT and not q.startswith(("numpy.random.", "numpy.ma.")):
        return ufunc_method(self, q, args, kw, st, node)
    if f is not None:
        if q.startswith("numpy.") and kw:
            h = handled(f)
            if any(k not in h and not ignorable(k, v) or k == "order" and not ignorable(k, v) for k, v in kw.items()):
                return self.opaque_call(q, args, kw, st, node, opq=True)
        try:
            if q in ("builtins.list", "builtins.tuple"):
                return b_list(self, args, kw, st, node, q)
            return f(self, args, kw, st, node)
        except TooComplex:
            return fn("toocomplex:" + q, opq=True)
    return self.opaque_call(q, args, kw, st, node)


def ufunc_method(I, q, args, kw, st, node):
    """numpy.<ufunc>.reduce / .outer / .accumulate, and unmodelled functions"""
    base, _, m = q.rpartition(".")
    base = ALIAS.get(base, base)
    red_ = {"numpy.add": "numpy.sum", "numpy.multiply": "numpy.prod", "numpy.maximum": "numpy.max", "numpy.minimum": "numpy.min", "numpy.logical_and": "numpy.all", "numpy.logical_or": "numpy.any"}
    if m == "reduce" and base in red_ and args:
        kw = dict(kw)
        if len(args) > 1:
            kw["axis"] = args[1]
        kw.setdefault("axis", ZERO)
        l = I.aslist(args[0], st) if not (isinstance(args[0], Ref) and isinstance(st.heap[args[0].id], Arr)) else None
        if l and kw["axis"] is ZERO:
            r = l[0]
            for x in l[1:]:
                r = I.ext(base, [r, x], {}, st, node)
            return r
        return I.ext(red_[base], [args[0]], kw, st, node)
    if m == "outer" and base in NP and len(args) == 2 and not kw:
        xa, xe = I.num(args[0], st)
        ya, ye = I.num(args[1], st)
        if xa is not None and ya is not None and xa:
            n = len(ya)
            a = I.getitem(args[0], Tup([FULL] * len(xa) + [NONE] * n), st, node) if n else args[0]
            return I.ext(base, [a, args[1]], {}, st, node)
    if m == "at" and args and I.isarr(args[0], st):
        k = args[1]
        if base in NP and len(args) == 3 and isinstance(k, E) and I.is_scalar_num(k):
            I.setitem(args[0], k, I.ext(base, [I.getitem(args[0], k, st, node), args[2]], {}, st, node), st, node)
        else:
            I.inplace(args[0], fn("put", opq=True), st, node)
        return NONE
    if m == "accumulate" and base == "numpy.add":
        return I.ext("numpy.cumsum", args, kw, st, node)
    return I.opaque_call(q, args, kw, st, node, opq=True)


def is_scalar_num(self, e):
    """E certainly standing for a scalar (not an unknown array/object)"""
    if e.kind in ("bool", "none", "str"):
        return True
    if e.kind == "ite":
        return self.is_scalar_num(e.d[1]) and self.is_scalar_num(e.d[2])
    if e.kind != "poly":
        return False
    return not self.is_opaque_obj(e)


def length_of(self, v, st):
    if isinstance(v, Phi):
        return ite(v.c, self.length_of(v.a, st), self.length_of(v.b, st))
    if isinstance(v, Tup):
        return num(len(v.items))
    if isinstance(v, WhereIdx):
        return num(len(v.axes))
    if isinstance(v, Coords):
        return self.count(v.axes, v.mask)
    if isinstance(v, RangeV):
        return f_ceil(div(sub(v.hi, v.lo), v.step))
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, Arr):
            if o.axes:
                return o.axes[0].L
            return fn("lenof", o.expr)
        if isinstance(o, Lst):
            return num(len(o.items))
        if isinstance(o, MapL):
            if not o.labels and o.mask is TRUE:
                return fn("lenof", self.term(v, st))
            return self.maplen(o)
        if isinstance(o, LcList):
            return fn("lenof", sym("lc:" + o.name), opq=True)
        if isinstance(o, IN.PhiL):
            return self.split_phil(v, st, lambda: self.length_of(v, st))
        if isinstance(o, Dct):
            if o.base is None:
                return num(len([1 for x in o.ent.values() if x[1] is not ABSENT]))
    if isinstance(v, E) and is_str_const(v):
        return num(len(str_const(v)))
    t = self.term(v, st)
    return lift("lenof", lambda x: num(len(str_const(x))) if is_str_const(x) else fn("lenof", x), t)


def arr_attr(self, ref, o, name, st, node):
    if name == "shape":
        if o.axes is None:
            return fn("shape", o.expr)
        return Tup([a.L if (a.label or a.parts) else ONE for a in o.axes])
    if name == "ndim":
        return num(len(o.axes)) if o.axes is not None else fn("ndim", o.expr)
    if name == "size":
        if o.axes is None:
            return fn("size", o.expr)
        r = ONE
        for a in o.axes:
            r = mul(r, a.L)
        return r
    if name == "T":
        return np_transpose(self, [ref], {}, st, node)
    if name in ("real", "imag"):
        f = real if name == "real" else imag
        e = f(b2n(o.expr))
        if name == "real":
            back = lambda st, a, b: add(self.align(b.axes, a.axes, b2n(a.expr)), mul(T.I_, imag(b2n(b.expr)))) if a.axes is not None and b.axes is not None else fn("put", opq=True)
        else:
            back = lambda st, a, b: add(real(b2n(b.expr)), mul(T.I_, self.align(b.axes, a.axes, b2n(a.expr)))) if a.axes is not None and b.axes is not None else fn("put", opq=True)
        return self.alloc(st, Arr(o.axes, e, None, o.org if name == "real" and o.expr._real else frozenset(), (ref.id, back)))
    if name == "dtype":
        return o.dtype if o.dtype is not None else fn("dtypeof", self.term(ref, st))
    if name == "itemsize":
        return fn("itemsize", o.dtype if o.dtype is not None else fn("dtypeof", self.term(ref, st)))
    if name == "flat":
        return np_reshape(self, [ref, Tup([num(-1)])], {}, st, node)
    if name == "mask" and T.has_leaf(o.expr, MASKED):
        return self.alloc(st, Arr(o.axes, lift("ismasked", lambda x: TRUE if x is MASKED else FALSE, o.expr)))
    if name == "mask" and o.axes is not None:
        return self.alloc(st, Arr(o.axes, FALSE))
    if name == "data" and T.has_leaf(o.expr, MASKED):
        return self.alloc(st, Arr(o.axes, T.drop_leaf(o.expr, MASKED)))
    return Meth(ref, name)


MUTATORS = {"put", "partition", "resize", "itemset", "setfield", "setflags", "byteswap"}
AS_FUNCTION = {"put", "clip", "take", "compress", "choose", "argsort", "cumsum", "ptp", "diagonal"}
ARR_RED = {"sum": "sum", "mean": "mean", "max": "max", "min": "min", "argmax": "argmax", "argmin": "argmin", "any": "any", "all": "all", "std": "std", "var": "var", "prod": "prod"}


def meth(self, obj, name, args, kw, st, node):
    I = self
    if isinstance(obj, Phi):
        return I.merge_val(obj.c, meth(I, obj.a, name, args, kw, st, node), meth(I, obj.b, name, args, kw, st, node), st, st, st)
    h = self.hooks.get("." + name)
    if h is not None:
        r = h(self, [obj] + list(args), kw, st, node)
        if r is not NotImplemented:
            return r
    try:
        return _meth(I, obj, name, args, kw, st, node)
    except TooComplex:
        return fn("toocomplex:" + name, opq=True)


def _meth(I, obj, name, args, kw, st, node):
    if name == "item" and not args and isinstance(obj, E):
        return obj
    o = st.heap[obj.id] if isinstance(obj, Ref) else None
    if isinstance(o, IN.Ob) and o.cls == "ext:pool":
        return pool_meth(I, name, args, kw, st, node)
    if isinstance(o, Lst) and not any(hasattr(t, name) for t in (list, set, tuple, dict)):
        I.do_raise(st, "AttributeError", node)
        return BOTTOM
    if isinstance(o, Arr) or (isinstance(obj, E) and obj.kind in ("poly", "bool") or isinstance(obj, E) and obj.kind == "ite" and not IN.all_str(obj)) and name in IN.SCALAR_ATTR:
        if name in ARR_RED:
            return I.ext("numpy." + ARR_RED[name], [obj] + list(args), kw, st, node)
        if name in AS_FUNCTION:
            return I.ext("numpy." + name, [obj] + list(args), kw, st, node)
        if name == "item" and args:
            k = Tup(args) if len(args) > 1 else args[0]
            if o is not None and len(args) == 1 and o.axes is not None and len(o.axes) > 1 and not isinstance(k, Tup):
                return I.getitem(np_ravel(I, [obj], {}, st, node), k, st, node)
            return I.getitem(obj, k, st, node)
        if name == "filled" and o is not None:
            v = I.scalar(args[0], st) if args else num(10 ** 20)
            return I.alloc(st, Arr(o.axes, T.replace_leaf(o.expr, MASKED, v)))
        if name == "astype":
            d = norm_dtype(I, args[0] if args else kw.get("dtype"), st)
            if o is None:
                return cast(I, obj, d)
            e = cast(I, o.expr, d)
            cp = kw.get("copy", args[4] if len(args) > 4 else None)
            if cp is FALSE and e is o.expr and not is_boolish(e):
                return obj  # the same object when its type is the requested one
            return I.alloc(st, Arr(o.axes, e, d))
        if name in ("copy", "__copy__"):
            return obj if o is None else I.alloc(st, Arr(o.axes, o.expr, o.dtype))
        if name in ("tolist", "item"):
            return obj
        if name in ("conj", "conjugate"):
            return I.ew(conj, [obj], st)
        if name == "round":
            return np_round(I, [obj] + list(args), kw, st, node)
        if name in ("flatten", "ravel", "reshape"):
            od = kw.get("order", args[0] if name != "reshape" and args else None)
            if od is not None and not ignorable("order", od):
                if not (o is not None and isinstance(od, E) and is_str_const(od) and str_const(od) == "F"):
                    return I.opaque_call("m:" + name, [obj] + list(args), kw, st, node, opq=True)
                t = np_transpose(I, [obj], {}, st, node)
                if name != "reshape":
                    return np_reshape(I, [t, Tup([num(-1)])], {}, st, node)
                dims = shape_list(I, Tup(args) if len(args) > 1 else args[0] if args else kw.get("shape", kw.get("newshape")), st)
                if dims is None:
                    return I.opaque_call("m:" + name, [obj] + list(args), kw, st, node, opq=True)
                return np_transpose(I, [np_reshape(I, [t, Tup(dims[::-1])], {}, st, node)], {}, st, node)
        if name in ("flatten", "ravel"):
            r = np_reshape(I, [obj, Tup([num(-1)])], {}, st, node) if o is not None else obj
            if name == "flatten" and isinstance(r, Ref):
                x = st.heap[r.id]
                return I.alloc(st, Arr(x.axes, x.expr, x.dtype))
            return r
        if name == "reshape":
            return np_reshape(I, [obj] + ([Tup(args)] if len(args) > 1 else list(args)), kw, st, node)
        if name == "squeeze":
            return np_squeeze(I, [obj] + list(args), kw, st, node)
        if name == "swapaxes":
            return np_swapaxes(I, [obj] + list(args), kw, st, node)
        if name == "transpose":
            return np_transpose(I, [obj] + list(args), kw, st, node)
        if name == "repeat":
            return np_repeat(I, [obj] + list(args), kw, st, node)
        if name == "view":
            return obj
        if name == "nonzero":
            return np_where(I, [obj], {}, st, node)
        if name == "dot":
            I.cur_ext = "numpy.dot"
            return np_dot(I, [obj] + list(args), kw, st, node)
        if name == "fill":
            x = st.heap[obj.id]
            I.inplace(obj, I.scalar(args[0], st), st, node)
            return NONE
        if name == "sort" and o is not None:
            r = np_sort(I, [obj], kw, st, node)
            if isinstance(r, Ref):
                I.inplace(obj, r, st, node)
            return NONE
        if name in ("is_integer",):
            return boolatom(fn("b:isint", I.term(obj, st), raw=True))
        if name in MUTATORS and o is not None:
            I.inplace(obj, fn("m:" + name, opq=True), st, node)
            return NONE
        if name == "value":
            return obj
        return I.opaque_call("m:" + name, [obj] + list(args), kw, st, node)
    if isinstance(o, (Lst, MapL, LcList)):
        return list_meth(I, obj, o, name, args, kw, st, node)
    if isinstance(o, IN.PhiL) and name in ("append", "copy", "index", "count", "extend", "reverse"):
        return I.split_phil(obj, st, lambda: I.meth(obj, name, args, kw, st, node))
    if isinstance(o, Dct):
        return dict_meth(I, obj, o, name, args, kw, st, node)
    if isinstance(obj, E) and (obj.kind == "str" or obj.kind == "ite" and IN.all_str(obj)):
        return str_meth(I, obj, name, args, kw, st, node)
    if isinstance(obj, Tup):
        if name == "count" or name == "index":
            its = [I.term(x, st) for x in obj.items]
            k = I.term(args[0], st)
            if name == "index" and all(x is k or eq(x, k) is FALSE for x in its) and k in its:
                return num(its.index(k))
        if name == "_asdict" and obj.names:
            return I.alloc(st, Dct({string(n).key: (string(n), v) for n, v in zip(obj.names, obj.items)}))
    if isinstance(o, Ob) and o.cls in ("ext:re", "ext:match"):
        r = re_meth(I, o, name, args, kw, st, node)
        if r is not None:
            return r
    if isinstance(o, Ob) and o.cls.startswith("ext:"):
        return I.opaque_call("m:" + name, [obj] + list(args), kw, st, node)
    if isinstance(obj, RangeV):
        return fn("m:" + name, I.term(obj, st), opq=True)
    return I.opaque_call("m:" + name, [obj] + list(args), kw, st, node)


def list_meth(I, obj, o, name, args, kw, st, node):
    if name == "append":
        if isinstance(o, LcList):
            st.heap[obj.id] = LcList(o.name, o.init, o.items + ((st.guard, args[0]),))
        elif isinstance(o, Lst):
            g = st.guard
            st.heap[obj.id] = Lst(o.items + (args[0],), o.org)
        else:
            st.heap[obj.id] = MapL((), TRUE, fn("appended", I.term(obj, st), I.term(args[0], st)))
        I.note_mut(obj, st, node) if isinstance(o, Lst) else None
        return NONE
    if name == "extend" and isinstance(o, Lst):
        l = I.aslist(args[0], st)
        if l is None:
            s = I.iterate(args[0], st)
            l = s[1] if s[0] == "known" else None
        if l is not None:
            st.heap[obj.id] = Lst(o.items + tuple(l), o.org)
        else:
            st.heap[obj.id] = MapL((), TRUE, fn("extended", I.term(obj, st), I.term(args[0], st)))
        I.note_mut(obj, st, node) if isinstance(o, Lst) else None
        return NONE
    if name == "copy":
        return I.alloc(st, o)
    if name == "insert" and isinstance(o, Lst) and isinstance(args[0], E) and const_val(args[0]) is not None:
        it = list(o.items)
        it.insert(int(const_val(args[0])), args[1])
        st.heap[obj.id] = Lst(it, o.org)
        return NONE
    if name == "pop" and isinstance(o, Lst):
        k = int(const_val(args[0])) if args and isinstance(args[0], E) and const_val(args[0]) is not None else -1
        it = list(o.items)
        if it:
            v = it.pop(k)
            st.heap[obj.id] = Lst(it, o.org)
            return v
    if name == "index" and isinstance(o, Lst):
        its = [I.term(x, st) for x in o.items]
        k = I.term(args[0], st)
        if k in its:
            return num(its.index(k))
        I.may_raise(st, TRUE, "ValueError")
        return fn("index", I.term(obj, st), k)
    if name == "remove" and isinstance(o, MapL) and o.labels and isinstance(o.elem, E) and not o.prefix:
        x = I.term(args[0], st)
        hit = and_(o.mask, eq(o.elem, x))
        for l, L in o.labels:
            hit = red("any", l, hit, L)
        st.heap[obj.id] = MapL(o.labels, and_(o.mask, not_(eq(o.elem, x))), o.elem, o.prefix)
        return NONE
    if name == "remove":
        I.may_raise(st, boolatom(fn("b:notin", I.term(obj, st), I.term(args[0], st), raw=True)), "ValueError")
        st.heap[obj.id] = MapL((), TRUE, fn("removed", I.term(obj, st), I.term(args[0], st)))
        return NONE
    if name == "sort" and isinstance(o, Lst):
        r = np_sort(I, [obj], kw, st, node)
        if isinstance(r, Ref) and isinstance(st.heap[r.id], Lst):
            st.heap[obj.id] = st.heap[r.id]
        else:
            st.heap[obj.id] = MapL((), TRUE, fn("sortedlist", I.term(obj, st)))
        return NONE
    if name == "sort":
        st.heap[obj.id] = MapL((), TRUE, fn("sortedlist", I.term(obj, st)))
        return NONE
    if name == "reverse" and isinstance(o, Lst):
        st.heap[obj.id] = Lst(reversed(o.items), o.org)
        return NONE
    if name == "count":
        return fn("count", I.term(obj, st), I.term(args[0], st))
    if name in ("tolist",):
        return obj
    if name == "add" and isinstance(o, Lst):
        st.heap[obj.id] = Lst(o.items + (args[0],), o.org)
        return NONE
    return I.opaque_call("m:" + name, [obj] + list(args), kw, st, node)


def dict_meth(I, obj, o, name, args, kw, st, node):
    if name in ("keys", "items", "values"):
        return ItemsV(obj, name)
    if name in ("copy", "deepcopy"):
        return I.alloc(st, Dct(o.ent, o.base, frozenset(), o.kind))
    if name == "get":
        k = I.term(args[0], st)
        p = I.d_contains(o, k)
        dflt = args[1] if len(args) > 1 else NONE
        if p is TRUE:
            return I.d_get(obj, o, args[0], st, node)
        if p is FALSE:
            return dflt
        e0 = len(I.effects)
        tsk, I.trystack = I.trystack, []
        v = I.d_get(obj, o, args[0], st, node)
        I.trystack = tsk
        del I.effects[e0:]
        return I.merge_val(p, v, dflt, st, st, st)
    if name in ("update", "extend"):
        src = args[0] if args else None
        if isinstance(src, Ref) and isinstance(st.heap[src.id], Dct):
            ent = dict(o.ent)
            ent.update(st.heap[src.id].ent)
            st.heap[obj.id] = Dct(ent, o.base, o.org, o.kind)
        else:
            ent = dict(o.ent)
            for k, v in kw.items():
                ke = string(k)
                ent[ke.key] = (ke, v)
            if src is not None:
                st.heap[obj.id] = Dct(ent, (o.base or "") + "+" + I.term(src, st).key, o.org, o.kind)
            else:
                st.heap[obj.id] = Dct(ent, o.base, o.org, o.kind)
        I.note_mut(obj, st, node)
        return NONE
    if name in ("pop", "remove"):
        k = I.term(args[0], st)
        p = I.d_contains(o, k)
        v = NONE
        if p is not FALSE:
            v = I.d_get(obj, o, args[0], st, node)
        if len(args) > 1:
            v = I.merge_val(p, v, args[1], st, st, st) if p is not TRUE and p is not FALSE else (v if p is TRUE else args[1])
            ent = dict(o.ent)
            nd = Dct(ent, o.base, o.org, o.kind)
            nd.ent[k.key] = (k, ABSENT)
            st.heap[obj.id] = nd
        else:
            I.delitem(obj, args[0], st, node)
        return v
    if name in ("set", "append", "setdefault") and len(args) >= 2:
        I.setitem(obj, args[0], args[1], st, node)
        return NONE
    if name == "tostring" or name == "add_history" or name == "add_comment":
        return NONE
    return I.opaque_call("m:" + name, [obj] + list(args), kw, st, node)


def str_meth(I, obj, name, args, kw, st, node):
    if name == "format":
        return str_format(I, obj, args, kw, st, node)
    ts = [I.term(a, st) for a in args]
    if name == "join":
        l = I.aslist(args[0], st)
        if l is not None:
            parts = []
            for i, x in enumerate(l):
                if i:
                    parts.append(obj)
                t = I.term(x, st)
                parts.append(t if t.kind in ("str", "ite") else strcat([fn("str", t)]))
            return IN.lift_cat(parts) if parts else string("")
        return strcat([fn("join", obj, ts[0])])
    if name in ("strip", "lower", "upper", "rstrip", "lstrip", "title", "capitalize", "replace", "startswith", "endswith", "split", "find", "rfind", "isdigit", "rsplit", "partition", "rpartition", "splitlines", "ljust", "rjust", "center", "index", "count", "zfill", "isnumeric", "isdecimal", "isalpha", "isalnum", "removeprefix", "removesuffix"):
        allc = all(t.kind == "str" and is_str_const(t) or (t.kind == "poly" and const_val(t) is not None) or t.kind == "none" for t in ts)

        def py(t):
            return str_const(t) if t.kind == "str" else (None if t.kind == "none" else int(const_val(t)))

        def wrap(r):
            if isinstance(r, bool):
                return TRUE if r else FALSE
            if isinstance(r, int):
                return num(r)
            if isinstance(r, str):
                return string(r)
            return None
        if allc:
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                if is_str_const(obj):
                    r = getattr(str_const(obj), name)(*[py(t) for t in ts])
                    its = [string(x) for x in r]
                    return I.alloc(st, Lst(its)) if isinstance(r, list) else Tup(its)
                return fn("str." + name, obj, *ts)

            def leaf(x):
                if is_str_const(x):
                    return wrap(getattr(str_const(x), name)(*[py(t) for t in ts]))
                if name in ("endswith",) and x.kind == "str" and x.d and isinstance(x.d[-1], str) and ts and (x.d[-1].endswith(str_const(ts[0])) or len(x.d[-1]) >= len(str_const(ts[0]))):
                    return TRUE if x.d[-1].endswith(str_const(ts[0])) else FALSE
                if name in ("startswith",) and x.kind == "str" and x.d and isinstance(x.d[0], str) and ts and len(x.d[0]) >= len(str_const(ts[0])):
                    return TRUE if x.d[0].startswith(str_const(ts[0])) else FALSE
                if name in ("endswith", "startswith", "isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum"):
                    return boolatom(fn("b:" + name, x, *ts, raw=True))
                if name in ("find", "rfind", "index", "count"):
                    return fn("find" if name != "count" else "count", x, *ts)
                return strcat([fn("str." + name, x, *ts)])
            return lift("strm:" + name + ":".join(t.key for t in ts), leaf, obj)
        r = fn("str." + name, obj, *ts)
        return boolatom(fn("b:" + name, obj, *ts, raw=True)) if name in ("endswith", "startswith") else (strcat([r]) if name not in ("split", "find", "rsplit") else r)
    if name in ("encode", "decode"):
        return obj
    return I.opaque_call("m:" + name, [obj] + list(args), kw, st, node)


def str_format(I, obj, args, kw, st, node):
    import re as _re
    parts = []
    auto = [0]

    def one(s):
        out = []
        if s.kind != "str":
            return [s]
        for q in s.d:
            if not isinstance(q, str):
                out.append(q)
                continue
            pos = 0
            for m in _re.finditer(r"\{\{|\}\}|\{([^{}:!]*)(?:!(\w))?(?::((?:[^{}]|\{\w*\})*))?\}", q):
                out.append(q[pos:m.start()])
                pos = m.end()
                if m.group(0) in ("{{", "}}"):
                    out.append(m.group(0)[0])
                    continue
                f = m.group(1)
                spec = m.group(3) or ""
                if f == "":
                    f = str(auto[0])
                    auto[0] += 1
                if "{" in spec:  # a width given by another argument
                    def width(m2):
                        g = m2.group(1)
                        if g == "":
                            g = str(auto[0])
                            auto[0] += 1
                        x = args[int(g)] if g.isdigit() and int(g) < len(args) else kw.get(g)
                        t = I.fmt(x, "", st) if x is not None else string("?")
                        return str_const(t) if is_str_const(t) else show(t)
                    spec = _re.sub(r"\{(\w*)\}", width, spec)
                if f.isdigit():
                    if int(f) < len(args):
                        out.append(I.fmt(args[int(f)], spec, st))
                    else:
                        I.issue("format", "format string needs argument %s" % f, st, node)
                        out.append(fn("missingarg", opq=True))
                elif f in kw:
                    out.append(I.fmt(kw[f], spec, st))
                elif _re.match(r"^\w+[\.\[]", f) :
                    out.append(fn("fmtfield:" + f, opq=True))
                else:
                    I.issue("format", "format string names unknown field %r" % f, st, node)
                    out.append(fn("missingarg", opq=True))
            out.append(q[pos:])
        return out
    if obj.kind == "ite":
        a = str_format(I, obj.d[1], args, kw, st, node)
        b = str_format(I, obj.d[2], args, kw, st, node)
        return ite(boolatom(obj.d[0]), a, b)
    return IN.lift_cat(one(obj))


for _f in (ext, meth, arr_attr, is_scalar_num, length_of):
    setattr(Interp, _f.__name__, _f)
