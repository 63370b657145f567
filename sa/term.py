"""Canonical value domain (value-numbering terms).

Every scalar / array-element value met by the dataflow analysis is an immutable
hash-consed term `E`.  Terms are kept in a canonical form, so that two pieces of
source computing the same quantity by the same algebra get the *same* term:

 * arithmetic      -> multivariate Laurent polynomials with Gaussian-rational
                      coefficients over atoms (exponents are rationals)
 * exp/cos/sin     -> products of exp / unit-phase atoms
 * conditionals    -> ordered if-then-else trees (MTBDD), booleans are such trees
 * reductions      -> linear, split by monomial, constants pulled out, bound
                      index renamed canonically
 * anything else   -> uninterpreted function atoms

No source is executed and no solver is used: equality is identity of normal form
(plus clearing of polynomial denominators).
"""
import hashlib
from fractions import Fraction as Fr
from decimal import Decimal

F0, F1 = Fr(0), Fr(1)
C0, C1, CI = (F0, F0), (F1, F0), (F0, F1)


class TooComplex(Exception):
    pass


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cmul(a, b):
    if not a[1] and not b[1]:
        return (a[0] * b[0], F0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)


_pool = {}


class E:
    __slots__ = ("kind", "d", "key", "labels", "opq", "_real", "depth", "size")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key


NOLAB = frozenset()


def mk(kind, d, keysrc, labels=NOLAB, opq=False, real=True, depth=0, size=1):
    key = hashlib.md5((kind + "|" + keysrc).encode()).hexdigest()[:20]
    e = _pool.get(key)
    if e is None:
        e = E()
        e.kind, e.d, e.key, e.labels, e.opq, e._real, e.depth = kind, d, key, labels, opq, real, depth
        e.size = size
        _pool[key] = e
    return e


# ---------------------------------------------------------------- constants
NONE = mk("none", None, "")
TRUE = mk("bool", True, "T")
FALSE = mk("bool", False, "F")
ELLIPSIS = mk("ell", None, "")
UNDEF = mk("undef", None, "")  # value of a name that was never bound


def _poly(terms):
    """terms: dict mono(tuple of (atom, exp)) -> coeff"""
    items = [(m, c) for m, c in terms.items() if c[0] or c[1]]
    items.sort(key=lambda t: tuple((a.key, x) for a, x in t[0]))
    lab = set()
    opq = False
    real = True
    depth = 0
    size = 1
    ks = []
    for m, c in items:
        if c[1]:
            real = False
        for a, x in m:
            lab |= a.labels
            opq |= a.opq
            real &= a._real
            depth = max(depth, a.depth)
            size += a.size
        ks.append(",".join("%s^%s" % (a.key, x) for a, x in m) + "*%s_%s" % (c[0], c[1]))
    if len(items) > 4000:
        raise TooComplex("polynomial")
    return mk("poly", tuple(items), ";".join(ks), frozenset(lab), opq, real, depth, size)


ZERO = _poly({})
ONE = _poly({(): C1})
I_ = _poly({(): CI})


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, complex):
        return _poly({(): (frac(x.real), frac(x.imag))})
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return neg(INF)
    f = frac(x)
    if f == 299792458:
        return C_LIGHT
    return _poly({(): (f, F0)})


def frac(x):
    if isinstance(x, float):
        return Fr(Decimal(repr(x)))
    return Fr(x)


def string(s):
    return strcat([s])


def strcat(parts):
    out = []
    for p in parts:
        if isinstance(p, E) and p.kind == "str":
            seq = p.d
        else:
            seq = (p,)
        for q in seq:
            if isinstance(q, E) and q.kind == "poly" and is_const(q):
                q = q  # numbers keep formatting through fmt()
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            else:
                out.append(q)
    lab = frozenset().union(*[q.labels for q in out if isinstance(q, E)])
    opq = any(q.opq for q in out if isinstance(q, E))
    return mk("str", tuple(out), "\x00".join(q if isinstance(q, str) else "\x01" + q.key for q in out), lab, opq)


def is_str_const(e):
    return e.kind == "str" and (not e.d or (len(e.d) == 1 and isinstance(e.d[0], str)))


def str_const(e):
    return e.d[0] if e.d else ""


# ---------------------------------------------------------------- atoms
def sym(name, real=True, pos=False, opq=False):
    return _as_poly(mk("sym", (name, pos), name + ("+" if pos else "") + ("" if real else "~c"), opq=opq, real=real))


def lab(name):
    """index variable"""
    return _as_poly(mk("lab", name, name, frozenset([name])))


def fn(name, *args, opq=False, real=None, raw=False):
    """uninterpreted function application (an atom)"""
    labs = frozenset().union(*[a.labels for a in args]) if args else NOLAB
    o = opq or any(a.opq for a in args)
    if real is None:
        real = name not in COMPLEX_FN and all(a._real for a in args) or name in REAL_FN
    dp = max([a.depth for a in args], default=0)
    sz = 1 + sum(a.size for a in args)
    at = mk("fn", (name, tuple(args)), name + ("" if real else "~c") + "(" + ",".join(a.key for a in args) + ")", labs, o, real, dp, sz)
    return at if raw else _as_poly(at)


COMPLEX_FN = {"expi", "nufft"}
REAL_FN = {"abs", "angle", "re", "im", "arg"}


def _as_poly(a):
    return _poly({((a, F1),): C1})


PI = sym("pi", pos=True)
C_LIGHT = sym("c_light", pos=True)
INF = sym("inf", pos=True)
NAN = sym("nan")


def is_const(e):
    return e.kind == "poly" and (not e.d or (len(e.d) == 1 and e.d[0][0] == ()))


def const_val(e):
    """Fraction (real) or complex of a constant poly; None otherwise"""
    if not is_const(e):
        return None
    if not e.d:
        return F0
    c = e.d[0][1]
    return c[0] if not c[1] else None


def is_num(e):
    return e.kind == "poly"


def single_atom(e):
    """atom if e is exactly one atom with exponent 1, coefficient 1"""
    if e.kind == "poly" and len(e.d) == 1 and e.d[0][1] == C1 and len(e.d[0][0]) == 1 and e.d[0][0][0][1] == 1:
        return e.d[0][0][0][0]
    return None


# ---------------------------------------------------------------- booleans / ite
_ite_memo = {}
MAXITE = 20000


def boolatom(at):
    return ite_node(at, TRUE, FALSE)


def ite_node(at, a, b):
    if a is b:
        return a
    return mk("ite", (at, a, b), at.key + "?" + a.key + ":" + b.key, at.labels | a.labels | b.labels,
              at.opq or a.opq or b.opq, a._real and b._real, max(at.depth, a.depth, b.depth),
              min(10 ** 9, at.size + a.size + b.size))


_lift_memo = {}


def lift(name, f, *args):
    """apply f to leaf terms, hoisting conditionals to the top (ordered)"""
    top = None
    for a in args:
        if a.kind == "ite":
            if top is None or a.d[0].key < top.key:
                top = a.d[0]
    if top is None:
        return f(*args)
    k = (name,) + tuple(a.key for a in args)
    r = _lift_memo.get(k)
    if r is not None:
        return r
    if len(_lift_memo) > 3000000:
        raise TooComplex("lift")
    hi = lift(name, f, *[a.d[1] if a.kind == "ite" and a.d[0] is top else a for a in args])
    lo = lift(name, f, *[a.d[2] if a.kind == "ite" and a.d[0] is top else a for a in args])
    if (hi.kind == "ite" and hi.d[0].key <= top.key) or (lo.kind == "ite" and lo.d[0].key <= top.key):
        r = _ite3(boolatom(top), hi, lo)  # f itself introduced conditionals
    else:
        r = ite_node(top, hi, lo)
    _lift_memo[k] = r
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return _ite3(c, a, b)


def _ite3(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.key, a.key, b.key)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if len(_ite_memo) > 3000000:
        raise TooComplex("ite")
    if c.kind != "ite":
        raise TooComplex("non-boolean condition %r" % (c,))
    top = c.d[0]
    for x in (a, b):
        if x.kind == "ite" and x.d[0].key < top.key:
            top = x.d[0]

    def cof(x, v):
        if x.kind == "ite" and x.d[0] is top:
            return x.d[1] if v else x.d[2]
        return x

    r = ite_node(top, _ite3(cof(c, 1), cof(a, 1), cof(b, 1)), _ite3(cof(c, 0), cof(a, 0), cof(b, 0)))
    _ite_memo[k] = r
    return r


def truth(e):
    """python truthiness of a term as boolean term"""
    def leaf(x):
        if x.kind == "bool":
            return x
        if x.kind == "none":
            return FALSE
        if x.kind == "poly":
            v = const_val(x)
            if v is not None:
                return TRUE if v else FALSE
            return not_(eq(x, ZERO))
        if x.kind == "str":
            if is_str_const(x):
                return TRUE if str_const(x) else FALSE
            if any(isinstance(p, str) for p in x.d):
                return TRUE
        return boolatom(fn("truth", x, raw=True))
    return lift("truth", leaf, e)


def not_(c):
    return _ite3(truth(c), FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = _ite3(r, truth(c), FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = _ite3(r, TRUE, truth(c))
    return r


def b2n(c):
    """boolean leaves -> 0/1"""
    def leaf(x):
        if x.kind == "bool":
            return ONE if x.d else ZERO
        return x
    return lift("b2n", leaf, c)


def content_norm(p):
    """poly -> (primitive poly with positive rational content removed)"""
    if not p.d:
        return p
    c = p.d[0][1]
    s = abs(c[0]) if c[0] else abs(c[1])
    if s == 1:
        return p
    return _poly({m: (k[0] / s, k[1] / s) for m, k in p.d})


def lead_negative(p):
    c = p.d[0][1]
    return c[0] < 0 or (c[0] == 0 and c[1] < 0)


def atoms_of(p):
    s = set()
    for m, c in p.d:
        for a, x in m:
            s.add(a)
    return s


def _is_pos_atom(a):
    if a.kind == "sym":
        return a.d[1]
    if a.kind == "fn" and a.d[0] in ("exp", "prime", "len", "sqrtabs"):
        return True
    if a.kind == "el":
        return a.d[2]
    return False


def sign_known(p):
    """+1 / -1 when p certainly positive/negative, 0 when p is 0, None unknown"""
    if not p.d:
        return 0
    s = None
    for m, c in p.d:
        if c[1]:
            return None
        pos = all(_is_pos_atom(a) or (x.denominator == 1 and x.numerator % 2 == 0 and a._real and False) for a, x in m)
        if not pos:
            return None
        t = 1 if c[0] > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
    return s


def label_bound(p, low):
    """least (or greatest) value of p over the ranges of the index variables in it; None when p is not linear in them"""
    r = ZERO
    for m, c in p.d:
        t = _poly({m: c})
        if t.labels:
            if c[1] or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "lab":
                return None
            l = m[0][0].d
            if l.startswith("%") or l.startswith("@"):
                return None
            if (c[0] > 0) == low:
                continue  # the index is at least 0
            t = _mul(_poly({(): c}), _add(length(l), neg(ONE)))
        r = _add(r, t)
    return r


def _cmp_atom(op, p):
    # op in lt, le, eq : p op 0
    if op in ("lt", "le"):
        sg = sign_known(p)
        if sg is not None:
            return TRUE if (sg < 0 or (sg == 0 and op == "le")) else FALSE
        if p.labels:
            b = label_bound(p, True)
            if b is not None and (sign_known(b) or 0) > 0:
                return FALSE
            b = label_bound(p, False)
            sg = sign_known(b) if b is not None else None
            if sg is not None and (sg < 0 or sg == 0 and op == "le"):
                return TRUE
    else:
        sg = sign_known(p)
        if sg is not None:
            return TRUE if sg == 0 else FALSE
    if NAN_A in atoms_of(p):
        return FALSE
    # x == inf
    q = content_norm(p)
    negd = lead_negative(q)
    if op == "eq":
        if negd:
            q = neg(q)
        if INF_A in atoms_of(q):
            return _eq_inf(q)
        # product == 0  <=> one factor == 0 (single monomial, positive exponents)
        if len(q.d) == 1:
            m = q.d[0][0]
            fac = [a for a, x in m if x > 0 and not _is_pos_atom(a) and not (a.kind == "fn" and a.d[0] in ("exp", "expi", "prime"))]
            if len(m) > 1 or (m and m[0][1] != 1):
                r = FALSE
                for a in fac:
                    if a.kind == "fn" and a.d[0] == "pa":
                        r = or_(r, eq(a.d[1][0], ZERO))
                    else:
                        r = or_(r, boolatom(fn("eq0", _as_poly(a), raw=True)))
                return r
        return boolatom(fn("eq0", q, raw=True))
    if negd:
        # p<0 == -q<0 == q>0 == not(q<=0)
        q = neg(q)
        return not_(boolatom(fn("le0" if op == "lt" else "lt0", q, raw=True)))
    return boolatom(fn(op + "0", q, raw=True))


def _eq_inf(q):
    # q = x - inf  (canonical); solve for the non-inf side
    rest = _poly({m: c for m, c in q.d if not any(a is INF_A for a, x in m)})
    infp = [(m, c) for m, c in q.d if any(a is INF_A for a, x in m)]
    if len(infp) == 1 and len(rest.d) == 1:
        m, c = rest.d[0]
        den = [a for a, x in m if x < 0]
        r = FALSE
        for a in den:
            r = or_(r, eq(_as_poly(a), ZERO) if not (a.kind == "fn" and a.d[0] == "pa") else eq(a.d[1][0], ZERO))
        for a, x in m:
            if x > 0 and a.kind in ("sym", "el") and a is not INF_A:
                r = or_(r, boolatom(fn("isinf", _as_poly(a), raw=True)))
        return r
    return boolatom(fn("eq0", q, raw=True))


def has_nan(x):
    """NaN propagates through arithmetic: a polynomial mentioning it is NaN"""
    return x.kind == "poly" and NAN_A in atoms_of(x)


def compare(op, a, b):
    """op: < <= > >= == !="""
    if op == ">":
        return compare("<", b, a)
    if op == ">=":
        return compare("<=", b, a)
    if op == "!=":
        return not_(compare("==", a, b))
    if op == "==":
        return eq(a, b)
    nm = "lt" if op == "<" else "le"

    def leaf(x, y):
        x, y = b2n(x), b2n(y)
        if has_nan(x) or has_nan(y):
            return FALSE
        if x.kind == "poly" and y.kind == "poly":
            return _cmp_atom(nm, sub(x, y))
        return boolatom(fn("cmp" + op, x, y, raw=True))
    return lift("cmp" + op, leaf, a, b)


def eq(a, b):
    def leaf(x, y):
        if has_nan(x) or has_nan(y):
            return FALSE
        if x is y:
            if x.kind == "poly" and x.d and atoms_of(x) - {PI_A, C_A}:
                return not_(isnan(x)) if any(at.kind == "el" for at in atoms_of(x)) else TRUE
            return TRUE
        if x.kind == "bool" and y.kind == "poly":
            x = b2n(x)
        if y.kind == "bool" and x.kind == "poly":
            y = b2n(y)
        if x.kind == "poly" and y.kind == "poly":
            return _cmp_atom("eq", sub(x, y))
        if {x, y} == {TRUE, FALSE}:
            return FALSE
        if x.kind == "str" and y.kind == "str":
            if is_str_const(x) and is_str_const(y):
                return FALSE
        if x.kind != y.kind and {x.kind, y.kind} <= {"str", "none", "bool"} :
            return FALSE
        if {x.kind, y.kind} == {"poly", "none"}:
            p = x if x.kind == "poly" else y
            return _isnone_poly(p)
        if {x.kind, y.kind} == {"poly", "str"}:
            p = x if x.kind == "poly" else y
            if is_const(p):
                return FALSE
        k = sorted([x, y])
        return boolatom(fn("eq", k[0], k[1], raw=True))
    return lift("eq", leaf, a, b)


def _isnone_poly(p):
    a = single_atom(p)
    if a is not None and a.kind == "fn" and (a.opq or a.d[0].startswith("opt:")):
        return boolatom(fn("isnone", p, raw=True))
    return FALSE


def isnone(e):
    def leaf(x):
        if x is NONE:
            return TRUE
        if x.kind == "poly":
            return _isnone_poly(x)
        return FALSE
    return lift("isnone", leaf, e)


# ---------------------------------------------------------------- arithmetic
def add(*xs):
    r = xs[0]
    for y in xs[1:]:
        r = lift("add", _add, r, y)
    return r


def _n(x):
    if x.kind == "bool":
        return ONE if x.d else ZERO
    if x.kind == "poly":
        return x
    return fn("num", x)


def _add(a, b):
    a, b = _n(a), _n(b)
    if a is MASKED or b is MASKED:  # a masked element stays masked
        return MASKED
    if not a.d:
        return b
    if not b.d:
        return a
    t = dict(a.d)
    for m, c in b.d:
        t[m] = cadd(t[m], c) if m in t else c
    return _poly(t)


def neg(a):
    return lift("neg", lambda x: x if x is MASKED else _poly({m: (-c[0], -c[1]) for m, c in _n(x).d}), a)


def sub(a, b):
    return lift("sub", lambda x, y: _add(_n(x), neg(_n(y))), a, b)


_mulmono_memo = {}


def _mulmono(m1, m2):
    """multiply two monomials -> (coeff, mono, expand list)"""
    if not m1:
        return C1, m2, ()
    if not m2:
        return C1, m1, ()
    d = dict(m1)
    for a, x in m2:
        d[a] = d.get(a, F0) + x
    c = C1
    extra = []
    for a in list(d):
        x = d[a]
        if x == 0:
            del d[a]
        elif a.kind == "fn":
            nm = a.d[0]
            if nm == "prime":
                q = x.numerator // x.denominator
                if q:
                    p = const_val(a.d[1][0])
                    c = cmul(c, (p ** q, F0))
                    d[a] = x - q
                    if d[a] == 0:
                        del d[a]
            elif nm == "pa" and x >= 1:
                q = int(x)
                extra.append((a.d[1][0], q))
                if x - q:
                    d[a] = x - q
                else:
                    del d[a]
    return c, tuple(sorted(d.items(), key=lambda t: t[0].key)), extra


def mul(*xs):
    r = xs[0]
    for y in xs[1:]:
        r = lift("mul", _mul, r, y)
    return r


def _mul(a, b):
    a, b = _n(a), _n(b)
    if a is MASKED or b is MASKED:
        return MASKED
    if not a.d or not b.d:
        return ZERO
    if len(a.d) * len(b.d) > 20000:
        raise TooComplex("mul")
    t = {}
    rest = ZERO
    for m1, c1 in a.d:
        for m2, c2 in b.d:
            c, m, ex = _mulmono(m1, m2)
            cc = cmul(cmul(c1, c2), c)
            if ex:
                p = _poly({m: cc})
                for base, q in ex:
                    for _ in range(q):
                        p = _mul(p, base)
                rest = _add(rest, p)
            else:
                t[m] = cadd(t[m], cc) if m in t else cc
    r = _poly(t)
    if rest.d:
        r = _add(r, rest)
    return _cancel(r)


def _cancel(p):
    """(A*X^-1 + B*X^-1) where A+B is a multiple of X: exact cancellation of a
    common polynomial denominator when the numerator is divisible by it"""
    dens = {}
    for m, c in p.d:
        for a, x in m:
            if x < 0 and a.kind == "fn" and a.d[0] == "pa" and x.denominator == 1:
                dens.setdefault(a, []).append((m, c))
    for a, terms in dens.items():
        base = a.d[1][0]
        if len(terms) < len(base.d):
            continue
        # take terms with exponent -1 exactly (or lower)
        grp = {}
        other = {}
        for m, c in p.d:
            dm = dict(m)
            if a in dm:
                x = dm.pop(a)
                if x == -1:
                    grp[tuple(sorted(dm.items(), key=lambda t: t[0].key))] = c
                    continue
            other[m] = c
        if len(grp) < len(base.d):
            continue
        q = _divide(_poly(grp), base)
        if q is not None:
            return _cancel(_add(_poly(other), q))
    return p


def _divide(n, d):
    """exact polynomial division n/d or None (leading-term division)"""
    if not d.d:
        return None
    order = lambda t: tuple((a.key, x) for a, x in t[0])
    # use a consistent monomial order: total degree then key
    def mo(m):
        return (sum(x for a, x in m), tuple((a.key, x) for a, x in m))
    dl = max(d.d, key=lambda t: mo(t[0]))
    q = ZERO
    r = n
    for _ in range(60):
        if not r.d:
            return q
        done = False
        for rl in sorted(r.d, key=lambda t: mo(t[0]), reverse=True)[:3]:
            inv = tuple((a, -x) for a, x in dl[0])
            c, m, ex = _mulmono(rl[0], inv)
            if ex:
                continue
            if any(x < 0 and dict(rl[0]).get(a, 0) >= 0 and a in dict(dl[0]) for a, x in m):
                continue
            t = _poly({m: cmul(cmul(rl[1], cinv(dl[1])), c)})
            r2 = _add(r, neg(_mul_nc(t, d)))
            if len(r2.d) <= len(r.d):
                q = _add(q, t)
                r = r2
                done = True
                break
        if not done:
            return None
    return None


def _mul_nc(a, b):
    t = {}
    for m1, c1 in a.d:
        for m2, c2 in b.d:
            c, m, ex = _mulmono(m1, m2)
            if ex:
                raise TooComplex("nc")
            cc = cmul(cmul(c1, c2), c)
            t[m] = cadd(t[m], cc) if m in t else cc
    return _poly(t)


def div(a, b):
    return lift("div", lambda x, y: _mul(_n(x), _inv(_n(y))), a, b)


def _inv(b):
    return _pow(b, num(-1))


def power(a, b):
    return lift("pow", lambda x, y: _pow(_n(x), _n(y)), a, b)


_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]


def _ratpow(c, x):
    """positive rational c ** x as poly"""
    if x.denominator == 1:
        return _poly({(): (c ** int(x), F0)})
    r = {}
    coeff = F1
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p in _PRIMES:
            while n % p == 0:
                r[p] = r.get(p, 0) + s
                n //= p
        if n > 1:
            r[n] = r.get(n, 0) + s
    out = ONE
    for p, k in sorted(r.items()):
        e = k * x
        q = e.numerator // e.denominator
        out = _mul(out, _poly({(): (Fr(p) ** q, F0)}))
        f = e - q
        if f:
            out = _mul(out, _poly({((fn("prime", num(p), raw=True), f),): C1}))
    return out


def _pow(a, b):
    if a is MASKED or b is MASKED:
        return MASKED
    x = const_val(b)
    if x is not None and x.denominator > 12:
        pass
    if x is not None:
        if x == 0:
            return ONE
        if x == 1:
            return a
        if not a.d:
            if x > 0:
                return ZERO
            return INF
        if a is INF_P and x < 0:
            return ZERO
        if len(a.d) == 1:
            m, c = a.d[0]
            return _monopow(m, c, x)
        # multi-term
        if x.denominator == 1 and 1 < x <= 6 and len(a.d) ** int(x) <= 3000:
            r = a
            for _ in range(int(x) - 1):
                r = _mul(r, a)
            return r
        # factor out common monomial
        common, rest = _factor(a)
        out = ONE
        if common is not None:
            out = _monopow(common[0], common[1], x)
            a = rest
        if len(a.d) == 1:
            return _mul(out, _monopow(a.d[0][0], a.d[0][1], x))
        pa = fn("pa", a, raw=True)
        return _mul(out, _poly({((pa, x),): C1}))
    # symbolic exponent: a**b = exp(b*log a)
    av = const_val(a)
    if av is not None and av == 1:
        return ONE
    return exp(_mul(b, log(a)))


def _isexp(a):
    return a.kind == "fn" and a.d[0] in ("exp", "expi", "cexp") and len(a.d[1]) == 1


def _expmul(a, x, arg):
    """an exponential raised to x stands for the exponential of x times its argument"""
    arg = mul(_poly({(): (x, F0)}), arg)
    return exp(mul(I_, arg) if a.d[0] == "expi" else arg)


def _factor(a):
    """common (mono, coeff) of all terms; leading coeff positive 1"""
    ms = [dict(m) for m, c in a.d]
    keys = set(ms[0])
    for d in ms[1:]:
        keys &= set(d)
    g = {}
    for k in keys:
        vals = [d[k] for d in ms]
        v = min(vals)
        if max(vals) < 0:
            v = max(vals) if False else min(vals)
        g[k] = v
    c0 = a.d[0][1]
    # canonical leading term decided after removing common monomial
    gm = tuple(sorted(g.items(), key=lambda t: t[0].key))
    inv = tuple((k, -v) for k, v in gm)
    t = {}
    for m, c in a.d:
        cc, mm, ex = _mulmono(m, inv)
        if ex:
            return None, a
        t[mm] = cmul(c, cc)
    p = _poly(t)
    c0 = p.d[0][1]
    if c0[1] == 0:
        lead = (abs(c0[0]), F0)
        p2 = _poly({m: (c[0] / lead[0], c[1] / lead[0]) for m, c in p.d})
        return (gm, lead), p2
    return (gm, C1), p


def _monopow(m, c, x):
    out = ONE
    if x.denominator == 1:
        k = int(x)
        cc = C1
        base = c if k > 0 else cinv(c)
        for _ in range(abs(k)):
            cc = cmul(cc, base)
        out = _poly({(): cc})
    elif c[1] == 0 and c[0] > 0:
        out = _ratpow(c[0], x)
    elif c == (Fr(-1), F0) and x == Fr(1, 2):
        out = I_
    elif c[1] == 0:
        out = _mul(fn("pa", num(-1)) if False else _negroot(x), _ratpow(-c[0], x))
    else:
        out = fn("cpow", _poly({(): c}), _poly({(): (x, F0)}))
    d = []
    if x.denominator != 1 and any(a.kind == "fn" and a.d[0] in ("expi", "cexp") for a, e in m):
        # a root of a complex exponential is the principal one, not the exponential of the fraction
        part = tuple((a, e) for a, e in m if not _is_pos_atom(a))
        m = tuple((a, e) for a, e in m if _is_pos_atom(a))
        out = _mul(out, _poly({((fn("pa", _poly({part: C1}), raw=True), x),): C1}))
    for a, e in m:
        ne = e * x
        if e.denominator == 1 and e.numerator % 2 == 0 and x.denominator != 1 and not _is_pos_atom(a) and a._real and ne.denominator == 1 and ne.numerator % 2 != 0:
            aa = absv(_as_poly(a))
            out = _mul(out, _pow(aa, _poly({(): (ne, F0)})))
        else:
            d.append((a, ne))
    for a, ne in d:
        cc, mm, ex = _mulmono(((a, ne),), ((fn("dummy", raw=True), F1),))
        p = _poly({tuple(t for t in mm if t[0].d != ("dummy", ())): cc})
        for base, q in ex:
            for _ in range(q):
                p = _mul(p, base)
        out = _mul(out, p)
    return out


def _negroot(x):
    return fn("negroot", _poly({(): (x, F0)}))


def sqrt(a):
    return power(a, num(Fr(1, 2)))


def exp(a):
    return lift("exp", _exp, a)


def _exp(a):
    a = _n(a)
    if a is INF_P:
        return INF
    out = ONE
    for m, c in a.d:
        real = all(t._real for t, x in m)
        mono = _poly({m: C1})
        if real:
            if c[0]:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].d[0] == "log":
                    out = _mul(out, _pow(m[0][0].d[1][0], _poly({(): (c[0], F0)})))
                else:
                    out = _mul(out, _poly({((fn("exp", mono, raw=True), c[0]),): C1}))
            if c[1]:
                out = _mul(out, _poly({((fn("expi", mono, real=False, raw=True), c[1]),): C1}))
        else:
            out = _mul(out, fn("cexp", _poly({m: c}), real=False))
    return out


def cos(a):
    return lift("cos", lambda x: _mul(_poly({(): (Fr(1, 2), F0)}), _add(_exp(_mul(I_, _n(x))), _exp(_mul(neg(I_), _n(x))))), a)


def sin(a):
    return lift("sin", lambda x: _mul(_poly({(): (F0, Fr(-1, 2))}), _add(_exp(_mul(I_, _n(x))), neg(_exp(_mul(neg(I_), _n(x)))))), a)


def log(a):
    return lift("log", _log, a)


def _lograt(c):
    out = ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p in _PRIMES:
            while n % p == 0:
                out = _add(out, mul(num(s), fn("log", num(p))))
                n //= p
        if n > 1:
            out = _add(out, mul(num(s), fn("log", num(n))))
    return out


def _log(a):
    a = _n(a)
    if len(a.d) == 1:
        m, c = a.d[0]
        if c[1] == 0 and c[0] > 0:
            out = _lograt(c[0])
            for at, e in m:
                ee = _poly({(): (e, F0)})
                if at.kind == "fn" and at.d[0] == "exp":
                    out = _add(out, _mul(ee, at.d[1][0]))
                elif at.kind == "fn" and at.d[0] == "pa":
                    out = _add(out, _mul(ee, fn("log", at.d[1][0])))
                elif at.kind == "fn" and at.d[0] == "prime":
                    out = _add(out, _mul(ee, fn("log", at.d[1][0])))
                else:
                    out = _add(out, _mul(ee, fn("log", _as_poly(at))))
            return out
    common, rest = _factor(a) if len(a.d) > 1 else (None, a)
    if common is not None and (common[0] or common[1] != C1) and len(rest.d) > 1:
        return _add(_log(_poly({common[0]: common[1]})), fn("log", rest))
    return fn("log", a)


def absv(a):
    return lift("abs", _abs, a)


def _abs(a):
    if a is MASKED:
        return a
    a = _n(a)
    if not a.d:
        return ZERO
    if len(a.d) == 1:
        m, c = a.d[0]
        if c[1]:
            co = _pow(_poly({(): (c[0] * c[0] + c[1] * c[1], F0)}), num(Fr(1, 2)))
        else:
            co = _poly({(): (abs(c[0]), F0)})
        for at, e in m:
            p = _poly({((at, e),): C1})
            if _is_pos_atom(at) or (at.kind == "fn" and at.d[0] == "abs"):
                co = _mul(co, p)
            elif at.kind == "fn" and at.d[0] == "expi":
                pass
            elif at._real and e.denominator == 1 and e.numerator % 2 == 0:
                co = _mul(co, p)
            else:
                co = _mul(co, _pow(fn("abs", _as_poly(at)), _poly({(): (e, F0)})))
        return co
    sg = sign_known(a)
    if sg:
        return a if sg > 0 else neg(a)
    # z with nonzero imaginary coefficients and real atoms: |x+iy|
    if all(t._real for t in atoms_of(a)) and any(c[1] for m, c in a.d):
        re = _poly({m: (c[0], F0) for m, c in a.d})
        im = _poly({m: (c[1], F0) for m, c in a.d})
        return _pow(_add(_mul(re, re), _mul(im, im)), num(Fr(1, 2)))
    common, rest = _factor(a)
    out = ONE
    if common is not None and common[0]:
        out = _abs(_poly({common[0]: common[1]}))
        a = rest
    else:
        n = content_norm(a)
        k = a.d[0][1]
        s = abs(k[0]) if k[0] else abs(k[1])
        out = _poly({(): (s, F0)})
        a = n
    if lead_negative(a):
        a = neg(a)
    return _mul(out, fn("abs", a))


def conj(a):
    return lift("conj", _conj, a)


def _conj(a):
    a = _n(a)
    if a._real:
        return a
    out = ZERO
    for m, c in a.d:
        p = _poly({(): (c[0], -c[1])})
        for at, e in m:
            if at._real:
                p = _mul(p, _poly({((at, e),): C1}))
            elif at.kind == "fn" and at.d[0] == "expi":
                p = _mul(p, _poly({((at, -e),): C1}))
            elif at.kind == "fn" and at.d[0] == "cexp":
                p = mul(p, _expmul(at, e, _conj(at.d[1][0])))
            elif at.kind == "fn" and at.d[0] == "conj":
                p = _mul(p, _pow(at.d[1][0], _poly({(): (e, F0)})))
            elif at.kind == "red" and at.d[0] == "sum":
                p = _mul(p, _pow(red("sum", at.d[1], conj(at.d[2]), at.d[3]), _poly({(): (e, F0)})))
            elif at.kind == "fn" and at.d[0] == "pa":
                p = _mul(p, _pow(_conj(at.d[1][0]), _poly({(): (e, F0)})))
            else:
                p = _mul(p, _pow(fn("conj", _as_poly(at), real=False), _poly({(): (e, F0)})))
        out = _add(out, p)
    return out


def real(a):
    return lift("real", lambda z: _n(z) if _n(z)._real else _mul(_poly({(): (Fr(1, 2), F0)}), _add(_n(z), _conj(z))), a)


def imag(a):
    return lift("imag", lambda z: ZERO if _n(z)._real else _mul(_poly({(): (F0, Fr(-1, 2))}), _add(_n(z), neg(_conj(z)))), a)


def minmax(name, args):
    """variadic order-insensitive min/max"""
    def leaf(*xs):
        ys = []
        for x in xs:
            at = single_atom(x) if x.kind == "poly" else None
            if at is not None and at.kind == "fn" and at.d[0] == name:
                ys.extend(at.d[1])
            else:
                ys.append(x)
        if any(y is INF_P for y in ys) and len(set(ys)) > 1 and name == "min":
            ys = [y for y in ys if y is not INF_P]
        ys = sorted(set(ys))
        consts = [y for y in ys if const_val(_n(y)) is not None]
        if len(consts) > 1:
            v = (max if name == "max" else min)(const_val(_n(c)) for c in consts)
            ys = sorted([y for y in ys if y not in consts] + [num(v)])
        if len(ys) == 1:
            return ys[0]
        return fn(name, *ys)
    return lift(name, leaf, *args)


# ---------------------------------------------------------------- nan / inf
FINITE = set()  # input arrays that a rule assumes free of NaN (a stated assumption of that rule)


def _finite_atom(a):
    if a.kind == "el" and a.d[0] in FINITE:
        return True
    if a.kind == "sym":
        return True
    if a.kind == "lab":
        return True
    if a.kind == "fn" and a.d[0] in ("prime", "len", "isnan"):
        return True
    return False


def isnan(a):
    return lift("isnan", _isnan, a)


def _isnan(a):
    if a.kind != "poly":
        return FALSE if a.kind in ("bool", "str") else boolatom(fn("isnan", a, raw=True))
    r = FALSE
    for at in sorted(atoms_of(a)):
        r = or_(r, _isnan_atom(at))
    return r


def _isnan_atom(at):
    if at is NAN_A:
        return TRUE
    if _finite_atom(at):
        return FALSE
    if at.kind == "fn" and at.d[0] in ("pa", "exp", "expi", "abs", "conj", "log", "erf", "sign", "tanh", "arctan"):
        return isnan(at.d[1][0])
    if at.kind == "red" and at.d[0] == "sum":
        return red("any", at.d[1], isnan(at.d[2]), at.d[3])
    if at.kind == "red" and at.d[0] in ("nansum",):
        return FALSE
    if at.kind == "red" and at.d[0] in ("nanmax", "nanmin"):
        return not_(red("any", at.d[1], not_(isnan(at.d[2])), at.d[3]))
    return boolatom(fn("isnan", _as_poly(at), raw=True))


def isinf(a):
    return lift("isinf", _isinf, a)


def _isinf(a):
    if a.kind != "poly":
        return FALSE
    r = FALSE
    for at in sorted(atoms_of(a)):
        r = or_(r, _isinf_atom(at))
    # zero denominators
    for m, c in a.d:
        for at, x in m:
            if x < 0 and not _is_pos_atom(at):
                r = or_(r, eq(at.d[1][0] if at.kind == "fn" and at.d[0] == "pa" else _as_poly(at), ZERO))
    return r


def _isinf_atom(at):
    if at is INF_A:
        return TRUE
    if _finite_atom(at):
        return FALSE
    if at.kind == "fn" and at.d[0] in ("pa", "exp", "expi", "abs", "conj", "log"):
        return isinf(at.d[1][0]) if at.d[0] != "expi" else FALSE
    if at.kind == "fn" and at.d[0] in ("erf", "sign", "tanh", "arctan"):
        return FALSE
    if at.kind == "el":
        return FALSE  # domain assumption: array inputs are finite or NaN
    if at.kind == "red" and at.d[0] == "sum":
        return red("any", at.d[1], isinf(at.d[2]), at.d[3])
    return boolatom(fn("isinf", _as_poly(at), raw=True))


def isfinite(a):
    return not_(or_(isnan(a), isinf(a)))


def nan_to_num(a):
    return lift("nan_to_num", _nan_to_num, a)


def _nan_to_num(a):
    a = b2n(a)
    if a is NAN:
        return ZERO
    return ite(isnan(a), ZERO, ite(isinf(a), fn("bignum", a), a))


PI_A = single_atom(PI)
C_A = single_atom(C_LIGHT)
INF_A = single_atom(INF)
NAN_A = single_atom(NAN)
INF_P = INF
MASKED = sym("masked")
MASKED_A = single_atom(MASKED)


# ---------------------------------------------------------------- indexed elements, reductions
def el(name, idx, pos=False, real=True, opq=False):
    """element of an input array: name[idx...]"""
    labs = frozenset().union(*[i.labels for i in idx]) if idx else NOLAB
    at = mk("el", (name, tuple(idx), pos), name + ("+" if pos else "") + ("" if real else "~c") + "[" + ",".join(i.key for i in idx) + "]",
            labs, opq, real, max([i.depth for i in idx], default=0))
    return _as_poly(at)


LEN = {}


def length(label):
    r = LEN.get(label)
    return r if r is not None else fn("len", string(label))


def set_length(label, L):
    LEN[label] = L


def _bound(body_depth):
    return "%%%d" % (body_depth + 1)


def red(name, label, body, L=None):
    """reduction of body over index variable `label` (a str) of extent L; order-free"""
    if L is None:
        L = length(label)
    if name in ("sum", "nansum", "any", "all"):
        n = const_val(L)
        if n is not None and n == int(n) and 0 <= n <= 4:
            if name == "nansum":
                body = ite(isnan(body), ZERO, b2n(body))
            bs = [subst(body, {label: num(i)}) for i in range(int(n))]
            return or_(*bs) if name == "any" else and_(*bs) if name == "all" else add(ZERO, *[b2n(b) for b in bs])
        elif n is not None and n == int(n) and 0 <= n <= 16 and name != "nansum" and body.labels == {label}:
            bs = [subst(body, {label: num(i)}) for i in range(int(n))]
            if all(b is TRUE or b is FALSE or b.kind == "poly" and const_val(b) is not None for b in bs):
                return or_(*bs) if name == "any" else and_(*bs) if name == "all" else add(ZERO, *[b2n(b) for b in bs])
    if name in ("sum",):
        return _sum(label, body, L)
    if name in ("any", "all"):
        if label not in body.labels:
            return body
        b2 = not_(body) if name == "all" else body
        r = _anyred(label, b2, L)
        return not_(r) if name == "all" else r
    if name in IDEMP and label not in body.labels:
        return body
    if name == "mean":
        return div(_sum(label, body, L), L)
    if name == "nansum":
        return _sum(label, ite(isnan(body), ZERO, b2n(body)), L)
    if name in ("min", "nanmin"):
        # min(x) = -max(-x)
        return neg(_redatom(name[:-3] + "max", label, neg(body), L))
    return _redatom(name, label, body, L)


IDEMP = ("min", "max", "nanmin", "nanmax", "median", "nanmedian", "mean", "nanmean")


def _anyred(label, body, L):
    # any distributes over OR; hoist label-free conditions
    if body is TRUE or body is FALSE:
        return body
    if label not in body.labels:
        return body
    if body.kind == "ite" and label not in body.d[0].labels:
        return _ite3(boolatom(body.d[0]), _anyred(label, body.d[1], L), _anyred(label, body.d[2], L))
    r = _redatom("any", label, body, L, raw=True)
    return boolatom(r) if r.kind == "red" else r


def _redatom(name, label, body, L, raw=False):
    # hoist label-free conditions
    if not raw:
        hc = _hoistable(body, label)
        if hc is not None:
            return _ite3(boolatom(hc), _redatom(name, label, cofactor(body, hc, True), L), _redatom(name, label, cofactor(body, hc, False), L))
    bn = _bound(body.depth)
    b = subst(body, {label: lab(bn)})
    if bn not in b.labels and (name == "any" or name in IDEMP):
        return b
    realf = b._real or name in ("argmax", "argmin", "nanargmax", "nanargmin", "any")
    at = mk("red", (name, bn, b, L), name + "|" + bn + "|" + b.key + "|" + L.key, (b.labels - {bn}) | L.labels, b.opq or L.opq, realf, body.depth + 1, b.size + 1)
    return at if raw else _as_poly(at)


def _hoistable(b, label):
    if b.kind != "ite":
        return None
    if label not in b.d[0].labels:
        return b.d[0]
    return _hoistable(b.d[1], label) or _hoistable(b.d[2], label)


def cofactor(b, at, v):
    if b.kind != "ite":
        return b
    if b.d[0] is at:
        return cofactor(b.d[1] if v else b.d[2], at, v)
    return ite_node(b.d[0], cofactor(b.d[1], at, v), cofactor(b.d[2], at, v))


def _sum(label, body, L):
    hc = _hoistable(body, label)
    if hc is not None:
        return _ite3(boolatom(hc), _sum(label, cofactor(body, hc, True), L), _sum(label, cofactor(body, hc, False), L))
    body = b2n(body)
    # collect monomials over all leaves
    monos = set()

    def leaves(b):
        if b.kind == "ite":
            leaves(b.d[1])
            leaves(b.d[2])
        else:
            for m, c in _n(b).d:
                monos.add(m)
    leaves(body)
    out = ZERO
    for m in sorted(monos, key=lambda m: tuple((a.key, x) for a, x in m)):
        outside, inside = [], []
        for a, x in m:
            (inside if label in a.labels else outside).append((a, x))
        cf = _coefdd(body, m)
        g = None
        # normalise coefficient tree: scale by first nonzero leaf
        g = _first_leaf(cf)
        ci = cinv(g)
        cf = lift("scale%s" % (g,), lambda z: _poly({k: cmul(c, ci) for k, c in _n(z).d}), cf)
        o = _poly({tuple(outside): g})
        inn = _poly({tuple(inside): C1})
        if label not in cf.labels and not inside:
            if cf is ONE:
                out = add(out, mul(o, L))
                continue
        bod = mul(cf, inn)
        bn = _bound(bod.depth)
        b = subst(bod, {label: lab(bn)})
        at = mk("red", ("sum", bn, b, L), "sum|" + bn + "|" + b.key + "|" + L.key, (b.labels - {bn}) | L.labels, b.opq or L.opq, b._real, bod.depth + 1, b.size + 1)
        out = add(out, _mul(o, _as_poly(at)))
    return out


def _coefdd(b, m):
    if b.kind == "ite":
        return ite_node(b.d[0], _coefdd(b.d[1], m), _coefdd(b.d[2], m))
    for mm, c in _n(b).d:
        if mm == m:
            return _poly({(): c})
    return ZERO


def _first_leaf(cf):
    if cf.kind == "ite":
        r = _first_leaf(cf.d[1])
        return r if r is not None else _first_leaf(cf.d[2])
    if not cf.d:
        return None
    return cf.d[0][1]


# ---------------------------------------------------------------- substitution
_sub_memo = {}


def subst(e, mp):
    """replace index variables (labels) by index terms"""
    if not (e.labels & mp.keys()):
        return e
    mk_ = (e.key, tuple(sorted((k, v.key) for k, v in mp.items())))
    r = _sub_memo.get(mk_)
    if r is None:
        r = _subst(e, mp)
        if len(_sub_memo) < 2000000:
            _sub_memo[mk_] = r
    return r


def _subst(e, mp):
    k = e.kind
    if k == "poly":
        out = ZERO
        for m, c in e.d:
            p = _poly({(): c})
            for a, x in m:
                if a.labels & mp.keys():
                    p = mul(p, _expmul(a, x, subst(a.d[1][0], mp)) if _isexp(a) else power(subst_atom(a, mp), _poly({(): (x, F0)})))
                else:
                    p = mul(p, _poly({((a, x),): C1}))
            out = add(out, p)
        return out
    if k == "ite":
        c = subst_atom(e.d[0], mp)
        return ite(c, subst(e.d[1], mp), subst(e.d[2], mp))
    if k == "str":
        return strcat([subst(q, mp) if isinstance(q, E) else q for q in e.d])
    return subst_atom(e, mp)


def rebuild_fn(name, args, opq=False, real=None):
    """re-canonicalise a function atom after its arguments changed"""
    if name == "exp":
        return exp(args[0])
    if name == "expi":
        return exp(mul(I_, args[0]))
    if name == "abs":
        return absv(args[0])
    if name == "log":
        return log(args[0])
    if name == "conj":
        return conj(args[0])
    if name == "pa":
        return args[0]
    if name == "eq0":
        return eq(args[0], ZERO)
    if name == "lt0":
        return compare("<", args[0], ZERO)
    if name == "le0":
        return compare("<=", args[0], ZERO)
    if name == "eq":
        return eq(args[0], args[1])
    if name == "isnan":
        return isnan(args[0])
    if name == "isinf":
        return isinf(args[0])
    if name in ("min", "max"):
        return minmax(name, list(args))
    if name == "truth":
        return truth(args[0])
    if name == "cmp<":
        return compare("<", args[0], args[1])
    if name == "cmp<=":
        return compare("<=", args[0], args[1])
    if name in BOOLFN or name.startswith("b:"):
        return boolatom(fn(name, *args, raw=True))
    return lift("fn:" + name + str(real), lambda *xs: fn(name, *xs, opq=opq, real=real), *args)


BOOLFN = {"isnone", "truth", "in", "guard"}


def subst_atom(a, mp):
    if not (a.labels & mp.keys()):
        return _wrap(a)
    if a.kind == "lab":
        return mp[a.d]
    if a.kind == "el":
        return el(a.d[0], [subst(i, mp) for i in a.d[1]], pos=a.d[2], real=a._real, opq=a.opq)
    if a.kind == "fn":
        args = [subst(x, mp) for x in a.d[1]]
        return rebuild_fn(a.d[0], args, opq=False, real=a._real)
    if a.kind == "red":
        name, bn, body = a.d[0], a.d[1], a.d[2]
        # avoid capture: bound names %k are never substituted by terms with %k of same depth
        tmp = "$" + bn
        clash = any(l.startswith("%") for v in mp.values() for l in v.labels)
        if clash:
            body = subst(body, {bn: lab(tmp)})
            body = subst(body, mp)
            return _reduce_again(name, tmp, body, a, lambda z: subst(z, mp))
        body = subst(body, mp)
        return _reduce_again(name, bn, body, a, lambda z: subst(z, mp))
    raise TooComplex("subst " + a.kind)


def _reduce_again(name, label, body, a, f=None):
    L = f(a.d[3]) if f else a.d[3]
    if name == "any":
        return _anyred(label, body, L)
    return red(name, label, body, L)


def _wrap(a):
    if a.kind in ("fn", "red") and a.kind == "fn" and a.d[0] in ("eq0", "lt0", "le0", "eq", "isnan", "isinf", "truth", "isnone", "cmp<", "cmp<=", "in"):
        return boolatom(a)
    if a.kind == "fn" and a.d[0].startswith("b:"):
        return boolatom(a)
    if a.kind == "red" and a.d[0] == "any":
        return boolatom(a)
    return _as_poly(a)


def map_atoms(e, f, memo=None):
    """rebuild e bottom-up; f(atom)-> E replaces an atom or None to recurse"""
    if memo is None:
        memo = {}
    r = memo.get(e.key)
    if r is not None:
        return r
    k = e.kind
    if k == "poly":
        out = ZERO
        for m, c in e.d:
            p = _poly({(): c})
            for a, x in m:
                if _isexp(a) and x.denominator != 1 and f(a) is None:
                    p = mul(p, _expmul(a, x, map_atoms(a.d[1][0], f, memo)))
                else:
                    p = mul(p, power(_map_atom(a, f, memo), _poly({(): (x, F0)})))
            out = add(out, p)
        r = out
    elif k == "ite":
        r = ite(_map_atom(e.d[0], f, memo), map_atoms(e.d[1], f, memo), map_atoms(e.d[2], f, memo))
    elif k == "str":
        r = strcat([map_atoms(q, f, memo) if isinstance(q, E) else q for q in e.d])
    elif k in ("sym", "lab", "el", "fn", "red"):
        r = _map_atom(e, f, memo)
    else:
        r = e
    memo[e.key] = r
    return r


def _map_atom(a, f, memo):
    k = ("@", a.key)
    r = memo.get(k)
    if r is not None:
        return r
    r = f(a)
    if r is None:
        if a.kind == "fn":
            args = [map_atoms(x, f, memo) for x in a.d[1]]
            if all(x is y for x, y in zip(args, a.d[1])):
                r = _wrap(a)
            else:
                r = rebuild_fn(a.d[0], args, real=a._real if all(y._real == x._real for x, y in zip(args, a.d[1])) else None)
        elif a.kind == "el":
            idx = [map_atoms(x, f, memo) for x in a.d[1]]
            r = el(a.d[0], idx, pos=a.d[2], real=a._real, opq=a.opq)
        elif a.kind == "red":
            body = map_atoms(a.d[2], f, memo)
            if body is a.d[2] and map_atoms(a.d[3], f, memo) is a.d[3]:
                r = _wrap(a)
            else:
                tmp = "$r%d" % (a.depth)
                body = subst(body, {a.d[1]: lab(tmp)})
                r = _reduce_again(a.d[0], tmp, body, a, lambda z: map_atoms(z, f, memo))
        else:
            r = _wrap(a)
    memo[k] = r
    return r


def all_atoms(e, acc=None, seen=None):
    """every atom occurring anywhere inside e"""
    if acc is None:
        acc, seen = set(), set()
    if e.key in seen:
        return acc
    seen.add(e.key)
    if e.kind == "poly":
        for m, c in e.d:
            for a, x in m:
                acc.add(a)
                all_atoms(a, acc, seen)
    elif e.kind == "ite":
        acc.add(e.d[0])
        all_atoms(e.d[0], acc, seen)
        all_atoms(e.d[1], acc, seen)
        all_atoms(e.d[2], acc, seen)
    elif e.kind == "fn":
        for x in e.d[1]:
            all_atoms(x, acc, seen)
    elif e.kind == "el":
        for x in e.d[1]:
            all_atoms(x, acc, seen)
    elif e.kind == "red":
        all_atoms(e.d[2], acc, seen)
    elif e.kind == "str":
        for q in e.d:
            if isinstance(q, E):
                all_atoms(q, acc, seen)
    return acc


# ---------------------------------------------------------------- equality
def equal(a, b):
    """canonical equality, clearing polynomial denominators when needed"""
    if a is b:
        return True
    if a.kind == "ite" or b.kind == "ite":
        top = None
        for x in (a, b):
            if x.kind == "ite" and (top is None or x.d[0].key < top.key):
                top = x.d[0]
        f = lambda x, v: (x.d[1] if v else x.d[2]) if x.kind == "ite" and x.d[0] is top else x
        return equal(f(a, 1), f(b, 1)) and equal(f(a, 0), f(b, 0))
    if a.kind == "poly" and b.kind == "poly":
        try:
            d = sub(a, b)
            for _ in range(8):
                if not d.d:
                    return True
                dens = {}
                for m, c in d.d:
                    for at, x in m:
                        if x < 0 and at.kind == "fn" and at.d[0] == "pa":
                            dens[at] = min(dens.get(at, F0), x)
                if not dens:
                    return False
                for at, x in dens.items():
                    k = -x
                    q = k.numerator // k.denominator + (1 if k.denominator > 1 else 0)
                    t = ZERO
                    for m, c in d.d:
                        cc, mm, ex = _mulmono(m, ((at, Fr(q)),))
                        p = _poly({mm: cmul(c, cc)})
                        for base, qq in ex:
                            for _2 in range(qq):
                                p = _mul(p, base)
                        t = _add(t, p)
                    d = t
            return not d.d
        except TooComplex:
            return False
    return False


# ---------------------------------------------------------------- printing
def show(e, lim=600):
    s = _show(e, 0)
    return s if len(s) <= lim else s[:lim] + "..."


def _showc(c):
    if not c[1]:
        return str(c[0]) if c[0].denominator == 1 else "%s" % (c[0],)
    if not c[0]:
        return "%si" % (c[1] if c[1] != 1 else "")
    return "(%s+%si)" % c


def _show(e, d):
    if d > 14:
        return "…"
    if e.kind == "poly":
        if not e.d:
            return "0"
        out = []
        for m, c in e.d:
            fs = [_showa(a, x, d) for a, x in m]
            if c == C1 and fs:
                out.append("*".join(fs))
            elif c == (Fr(-1), F0) and fs:
                out.append("-" + "*".join(fs))
            else:
                out.append("*".join([_showc(c)] + fs))
        return " + ".join(out)
    if e.kind == "bool":
        return str(e.d)
    if e.kind == "none":
        return "None"
    if e.kind == "undef":
        return "<unbound>"
    if e.kind == "str":
        return '"' + "".join(q if isinstance(q, str) else "{" + _show(q, d + 1) + "}" for q in e.d) + '"'
    if e.kind == "ite":
        if e.d[1] is TRUE and e.d[2] is FALSE:
            return "[" + _showa(e.d[0], F1, d + 1) + "]"
        if e.d[1] is FALSE and e.d[2] is TRUE:
            return "[not " + _showa(e.d[0], F1, d + 1) + "]"
        return "(%s if %s else %s)" % (_show(e.d[1], d + 1), _showa(e.d[0], F1, d + 1), _show(e.d[2], d + 1))
    if e.kind == "ell":
        return "..."
    return _showa(e, F1, d)


def _showa(a, x, d):
    if a.kind == "sym":
        s = a.d[0]
    elif a.kind == "lab":
        s = a.d
    elif a.kind == "el":
        s = a.d[0] + ("[" + ",".join(_show(i, d + 1) for i in a.d[1]) + "]" if a.d[1] else "")
    elif a.kind == "fn":
        nm = a.d[0]
        if nm == "pa":
            s = "(" + _show(a.d[1][0], d + 1) + ")"
        elif nm == "prime":
            s = _show(a.d[1][0], d + 1)
        else:
            s = nm + "(" + ", ".join(_show(i, d + 1) for i in a.d[1]) + ")"
    elif a.kind == "red":
        s = "%s_%s{%s}" % (a.d[0], a.d[1], _show(a.d[2], d + 1))
    else:
        s = _show(a, d + 1)
    if x != 1:
        s += "^%s" % (x if x.denominator == 1 and x > 0 else "(%s)" % x)
    return s


def has_leaf(e, leaf):
    if e.kind == "ite":
        return has_leaf(e.d[1], leaf) or has_leaf(e.d[2], leaf)
    return e is leaf


def drop_leaf(e, leaf):
    """e on the paths where it is not `leaf`"""
    if e.kind == "ite":
        a, b = drop_leaf(e.d[1], leaf), drop_leaf(e.d[2], leaf)
        if a is leaf:
            return b
        if b is leaf:
            return a
        return ite_node(e.d[0], a, b)
    return e


def replace_leaf(e, leaf, v):
    return lift("replace:" + leaf.key + ":" + v.key, lambda x: v if x is leaf else x, e)
