"""Random interpretation of value-numbering terms (Gulwani & Necula, POPL'03/'04).

Two terms with different normal forms are compared by mapping both into the same
random finite model (random index extents, random element values, uninterpreted
functions as random smooth functions).  This only ever compares *terms* produced by
the dataflow analysis - no repository code runs - and it is used to recognise equal
terms the normal form could not identify."""
import cmath
import hashlib
import itertools
import math
from .term import *
from . import term as T


class Inconclusive(Exception):
    pass


def hsh(*a):
    return int(hashlib.md5(repr(a).encode()).hexdigest()[:15], 16)


def u01(*a):
    return (hsh(*a) % 1000003) / 1000003.0


BIG = 6.02e7


def flat(v):
    if isinstance(v, tuple):
        out = []
        for x in v:
            out += flat(x)
        return out
    if isinstance(v, bool):
        return [1.0 if v else 0.0]
    if isinstance(v, str):
        return [u01("str", v) * 3]
    if v is None:
        return [0.7713]
    return [v]


def rnd(z):
    if isinstance(z, complex) and z.imag == 0:
        return z.real
    return z


def rl(z):
    return z.real if isinstance(z, complex) else z


UNINTERP_OK = set()
INTERP = {"abs", "log", "exp", "expi", "cexp", "conj", "re", "im", "pa", "prime", "len", "int", "floor", "ceil", "round", "mod", "floordiv", "min", "max",
          "arctan2", "interp", "sorted", "cumsum", "angle", "sinc", "erf", "tanh", "sign", "eq0", "lt0", "le0", "eq", "isnan", "isinf", "truth", "list", "tuple",
          "ax1", "item", "wrap", "num", "cmp<", "cmp<=", "in", "isnone", "isnum", "str", "slicelen", "negroot", "cpow", "arctan", "arcsin", "arccos", "argsort",
          "firstof", "lastof", "kv", "b:nonempty", "ordinal", "bitand", "bitor", "mordinal", "nthtrue", "nthof", "flatmedian", "flatargmax"}


class Model:
    def __init__(self, seed, scale=1.0, zeros=False, lens=None, loops=None, budget=400000, vals=None):
        self.seed, self.scale, self.zeros = seed, scale, zeros
        self.memo = {}
        self.lens = lens or {}
        self.loops = loops or {}
        self.vals = vals
        self.iters = 0
        self.lcstate = {}
        self.steps = 0
        self.budget = budget

    # ---- values of inputs
    def base_len(self, name):
        if name in self.lens:
            return self.lens[name]
        return (2 if hsh(self.seed, "short") % 4 == 0 else 3) + hsh(self.seed, "len", name) % 3

    def val(self, name, idx, pos, real):
        k = (self.seed, "el", name, idx)
        if self.vals is not None and all(isinstance(i, (int, float)) for i in idx):
            v = self.vals(self, name, idx)
            if v is not None:
                return v
        if self.zeros and u01(k, "z") < 0.3 and not pos:
            return 0.0
        x = 0.15 + 1.6 * u01(k, "a")
        if not pos and u01(k, "s") < 0.5:
            x = -x
        x *= self.scale if u01(k, "sc") < 0.5 else 1.0
        if not real:
            return complex(x, (u01(k, "i") - 0.5) * 3)
        return x

    def smooth(self, name, args):
        fl = []
        for a in args:
            f = flat(a)
            fl.append(("n", len(f)))
            fl += f
        s = 0.37 + u01(self.seed, name)
        for i, x in enumerate(fl):
            if isinstance(x, tuple):
                s += 0.13 * x[1]
                continue
            w = 0.5 + u01(self.seed, name, "w", i)
            x = rnd(x)
            if isinstance(x, complex):
                s += math.sin(w * x.real + i) + math.cos(w * 1.3 * x.imag + i)
            else:
                s += math.sin(w * x + 0.3 * i)
        return s

    def ev(self, e, env):
        k = (e.key, tuple(sorted((l, env[l]) for l in e.labels if l in env)))
        r = self.memo.get(k)
        if r is None:
            self.steps += 1
            if self.steps > self.budget:
                raise Inconclusive("budget")
            r = self._ev(e, env)
            self.memo[k] = r
        return r

    def _ev(self, e, env):
        kd = e.kind
        if kd == "poly":
            if len(e.d) == 1:
                (m, c), = e.d
                if c[0] == 1 and not c[1] and len(m) == 1:
                    (a, x), = m
                    if x == 1:
                        return self.plain(self.atom(a, env))
            s = 0.0
            for m, c in e.d:
                p = complex(float(c[0]), float(c[1])) if c[1] else float(c[0])
                for a, x in m:
                    if a.kind == "fn" and a.d[0] in ("expi", "exp", "cexp") and x != 1 and len(a.d[1]) == 1:
                        # the exponential of a multiple of the argument, not a branch of a power
                        v = self.ev(a.d[1][0], env)
                        if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
                            p = p * self.fnv(a.d[0], [v * float(x)], a)
                            continue
                    v = self.atom(a, env)
                    p = p * self.pw(v, x)
                s = s + p
            return s
        if kd == "ite":
            c = self.batom(e.d[0], env)
            return self.ev(e.d[1] if c else e.d[2], env)
        if kd == "bool":
            return e.d
        if kd == "none":
            return None
        if kd == "str":
            out = []
            for q in e.d:
                out.append(q if isinstance(q, str) else self.fmt(self.ev(q, env)))
            return "".join(out)
        if kd in ("undef", "ell"):
            return "<" + kd + e.key
        return self.atom(e, env)

    def fmt(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, (float, complex)):
            v = rnd(v)
            if isinstance(v, float) and abs(v - round(v)) < 1e-9:
                return str(int(round(v)))
            return "%.6g" % v if isinstance(v, float) else "%.6g,%.6g" % (v.real, v.imag)
        return repr(v)

    def plain(self, v):
        return float(v) if isinstance(v, bool) else v

    def pw(self, v, x):
        if isinstance(v, (tuple, str)) or v is None:
            v = self.smooth("asnum", [v])
        if isinstance(v, bool):
            v = float(v)
        if x == 1:
            return v
        if v == 0:
            if x < 0:
                return float("inf")
            return 0.0
        try:
            if x.denominator == 1:
                return v ** int(x)
            if isinstance(v, complex) and v.imag == 0:
                v = v.real
            if isinstance(v, float) and v > 0:
                return v ** float(x)
            return complex(v) ** float(x)
        except OverflowError:
            raise Inconclusive("overflow")

    def truthy(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        return abs(v) > 1e-9

    def batom(self, a, env):
        return self.truthy(self.atom(a, env))

    def near(self, v):
        v = rl(v)
        if v != v or abs(v) == float("inf"):
            raise Inconclusive("nonfinite index")
        r = round(v)
        return int(r) if abs(v - r) < 1e-7 else None

    def ilen(self, L, env):
        v = self.ev(L, env)
        if isinstance(v, (str, tuple)) or v is None:
            raise Inconclusive("length")
        n = self.near(v)
        if n is None:
            n = int(math.ceil(rl(v)))
        if n < 0:
            n = 0
        if n > 200:
            raise Inconclusive("extent")
        return n

    def idx(self, v):
        if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
            n = self.near(v)
            return n if n is not None else "%.7g" % rl(v)
        return v if not isinstance(v, tuple) else repr([self.idx(x) for x in v])

    def atom(self, a, env):
        k = a.kind
        if k == "lab":
            if a.d in env:
                return float(env[a.d])
            return 1.0 + hsh(self.seed, "lab", a.d) % 2
        if k == "sym":
            nm, pos = a.d
            if nm == "pi":
                return math.pi
            if nm == "filtered":
                return "<filtered>"
            if nm == "c_light":
                return 1.83
            if nm == "inf":
                return BIG
            if nm == "nan":
                v = self.vals(self, "nan", ()) if self.vals else None
                return 0.77137 if v is None else v
            return self.val(nm, (), pos, a._real)
        if k == "el":
            ix = tuple(self.idx(self.ev(i, env)) for i in a.d[1])
            if a.d[0] in self.lcstate:
                f = self.lcstate[a.d[0]]
                return (f[ix] if ix in f else self.smooth("lc", [repr(ix)])) if isinstance(f, dict) else f
            if a.d[0] in self.loops:
                return self.mu(a.d[0], ix)
            return self.val(a.d[0], ix, a.d[2], a._real)
        if k == "red":
            return self.red(a, env)
        if k == "fn":
            return self.fn_(a, env)
        raise Inconclusive(k)

    def red(self, a, env):
        name, bn, body, L = a.d
        if name.endswith("~masked"):  # a position among the values that are kept
            name = name[:-7]
        n = self.ilen(L, env)
        vals = []
        for i in range(n):
            e2 = dict(env)
            e2[bn] = i
            vals.append(self.ev(body, e2))
        if name == "lam":
            return tuple(vals)
        if name == "any":
            return any(self.truthy(v) for v in vals)
        vals = [v for v in vals if v != "<filtered>"]
        vals = [self.smooth("asnum", [v]) if isinstance(v, (tuple, str)) or v is None else (float(v) if isinstance(v, bool) else v) for v in vals]
        if name == "sum":
            s = 0.0
            for v in vals:
                s = s + v
            return s
        if not vals:
            raise Inconclusive("empty")
        rv = [rl(v) for v in vals]
        if name in ("max", "nanmax"):
            return max(rv)
        if name in ("argmax", "nanargmax"):
            return float(rv.index(max(rv)))
        if name in ("median", "nanmedian"):
            s = sorted(rv)
            return (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
        return self.smooth("red:" + name, vals)

    def fn_(self, a, env):
        nm = a.d[0]
        if nm == "len":
            q = a.d[1][0]
            return float(self.base_len(T.str_const(q) if q.kind == "str" else q.key))
        args = [self.ev(x, env) for x in a.d[1]]
        try:
            return self.fnv(nm, args, a)
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Inconclusive(nm)
        except TypeError:
            return self.smooth(nm, args)

    def fnv(self, nm, x, a):
        if any(isinstance(v, float) and (v != v or abs(v) == float("inf")) for v in x) or any(isinstance(v, complex) and (cmath.isnan(v) or cmath.isinf(v)) for v in x):
            if nm not in ("pa",):
                raise Inconclusive("nonfinite")
        if nm == "abs":
            return abs(x[0])
        if nm == "exp":
            if abs(rl(x[0])) > 300:
                raise Inconclusive("exp")
            return math.exp(rl(x[0])) if not (isinstance(x[0], complex) and x[0].imag) else cmath.exp(x[0])
        if nm == "expi":
            return cmath.exp(1j * x[0])
        if nm == "cexp":
            return cmath.exp(x[0])
        if nm == "log":
            v = x[0]
            if isinstance(v, complex) and v.imag == 0:
                v = v.real
            if isinstance(v, complex) or v <= 0:
                return cmath.log(v) if v != 0 else -BIG
            return math.log(v)
        if nm == "conj":
            return x[0].conjugate() if isinstance(x[0], complex) else x[0]
        if nm == "re":
            return rl(x[0])
        if nm == "im":
            return x[0].imag if isinstance(x[0], complex) else 0.0
        if nm in ("pa", "prime", "num"):
            return x[0]
        if nm in ("int", "intof"):
            n = self.near(x[0])
            return float(n if n is not None else int(rl(x[0])))
        if nm in ("floor", "ceil", "round"):
            n = self.near(x[0])
            return float(n if n is not None else {"floor": math.floor, "ceil": math.ceil, "round": round}[nm](rl(x[0])))
        if nm in ("mordinal", "nthtrue"):
            sel = flatten(x[-1 if nm == "mordinal" else 0])
            sel = [self.truthy(v) for v in sel]
            if nm == "nthtrue":
                k = self.near(x[1])
                pos = [i for i, v in enumerate(sel) if v]
                if k is None or not 0 <= k < len(pos):
                    raise Inconclusive("index")
                return float(pos[k])
            if len(a.d[1]) == 2:
                k = self.near(x[0])
                if k is None or not 0 <= k <= len(sel):
                    raise Inconclusive("index")
                return float(sum(sel[:k]))
        if nm == "nthof":
            vs = x[0]
            if not isinstance(vs, tuple) or any(isinstance(v, tuple) for v in vs):
                raise Inconclusive("nthof")
            vs = [v for v in vs if v != "<filtered>"]
            k = self.near(x[1])
            if k is None or not -len(vs) <= k < len(vs):
                raise Inconclusive("index")
            return vs[k]
        if nm == "ordinal":
            n, v = len(x) // 2, 0.0
            for i in range(n):
                v = v * rl(x[n + i]) + rl(x[i])
            return v
        if nm == "mod":
            return rl(x[0]) - rl(x[1]) * math.floor(rl(x[0]) / rl(x[1]) + 1e-9)
        if nm == "floordiv":
            return float(math.floor(rl(x[0]) / rl(x[1]) + 1e-9))
        if nm == "wrap":
            return x[0] if rl(x[0]) >= 0 else x[0] + x[1]
        if nm == "min":
            return min(rl(v) for v in x)
        if nm == "max":
            return max(rl(v) for v in x)
        if nm == "arctan2":
            return math.atan2(rl(x[0]), rl(x[1]))
        if nm == "arctan":
            return math.atan(rl(x[0]))
        if nm == "angle":
            return cmath.phase(x[0])
        if nm == "sinc":
            v = rl(x[0]) * math.pi
            return 1.0 if v == 0 else math.sin(v) / v
        if nm == "erf":
            z = x[0]
            if isinstance(z, complex) and z.imag:
                if abs(z) > 3:
                    return z / cmath.sqrt(1 + z * z)  # any odd analytic function serves
                t, s, k = z, z, 0
                while k < 60:
                    k += 1
                    t *= -z * z / k
                    s += t / (2 * k + 1)
                return 2 / math.sqrt(math.pi) * s
            return math.erf(rl(z))
        if nm == "tanh":
            return math.tanh(rl(x[0]))
        if nm == "sign":
            return float((rl(x[0]) > 0) - (rl(x[0]) < 0))
        if nm == "interp" and len(x) == 3 and isinstance(x[1], tuple) and isinstance(x[2], tuple) and len(x[1]) == len(x[2]) and x[1]:
            if len(x[1]) > 1 and all(abs(complex(v).imag) < 1e-9 for v in x[1]) and all(rl(a) < rl(b) for a, b in zip(x[1], x[1][1:])):
                xp, fp, z = [rl(v) for v in x[1]], x[2], rl(x[0])
                if z <= xp[0]:
                    return fp[0]
                if z >= xp[-1]:
                    return fp[-1]
                i = max(i for i in range(len(xp) - 1) if xp[i] <= z)
                return fp[i] + (fp[i + 1] - fp[i]) * (z - xp[i]) / (xp[i + 1] - xp[i])
            # keep as a smooth function of (x, sorted-invariant pairs) : np.interp itself assumes ascending xp
            return self.smooth("interp", x)
        if nm == "sorted" and len(x) == 2 and isinstance(x[0], tuple):
            s = sorted(rl(v) for v in x[0])
            i = self.near(x[1])
            return s[i]
        if nm == "argsort" and len(x) == 2 and isinstance(x[0], tuple) and all(not isinstance(v, (tuple, str)) for v in x[0]):
            vs = [rl(v) for v in x[0]]
            return float(sorted(range(len(vs)), key=lambda k: vs[k])[self.near(x[1])])
        if nm == "cumsum" and len(x) == 2 and isinstance(x[0], tuple):
            return sum(v for v in x[0][: self.near(x[1]) + 1] if v != "<filtered>")
        if nm in ("flatmedian", "flatargmax") and len(x) == 1 and isinstance(x[0], tuple):
            vs = [rl(v) for v in flatten(x[0])]
            if not vs:
                raise Inconclusive("empty")
            if nm == "flatargmax":
                return float(vs.index(max(vs)))
            s = sorted(vs)
            return (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
        if nm in ("firstof", "lastof") and len(x) == 1 and isinstance(x[0], tuple):
            vs = [v for v in x[0] if v != "<filtered>"]
            if vs:
                return vs[0 if nm == "firstof" else -1]
        if nm == "eq0":
            return abs(x[0]) < 1e-9 * max(1.0, self.scale)
        if nm == "lt0":
            return rl(x[0]) < -1e-12
        if nm == "le0":
            return rl(x[0]) <= 1e-12
        if nm == "eq":
            return x[0] == x[1] or (all(isinstance(v, (int, float, complex)) for v in x) and abs(x[0] - x[1]) < 1e-9)
        if nm == "cmp<":
            return rl(x[0]) < rl(x[1])
        if nm == "cmp<=":
            return rl(x[0]) <= rl(x[1])
        if nm == "truth":
            return self.truthy(x[0])
        if nm in ("list", "tuple"):
            return tuple(x)
        if nm == "ax1":
            return (x[0],)
        if nm == "item" and isinstance(x[0], tuple) and isinstance(x[1], (int, float)):
            i = self.near(x[1])
            if i is not None and -len(x[0]) <= i < len(x[0]):
                return x[0][i]
        if self.vals is not None:
            v = self.vals(self, nm, None)
            if v is None and nm == "isnan":
                v = self.vals(self, "isnan?", tuple(x))  # may depend on the value
            if v is not None:
                return v
        if nm == "isnan" or nm == "isinf":
            return self.smooth(nm, x) % 1.0 < (0.25, 0.06, 0.5)[hsh(self.seed, "pn") % 3]
        if nm.startswith("b:") or nm in ("in", "isnone"):
            if nm == "b:nonempty":
                return all(self.near(v) != 0 for v in x)
            return self.smooth(nm, x) % 1.0 < (0.5, 0.15, 0.85)[hsh(self.seed, "pb") % 3]
        if nm == "str":
            return self.fmt(x[0])
        v = self.smooth(nm, x)
        if nm in ("find", "whereidx", "count"):
            return float(int(abs(v) * 7) % 3)
        return v if a._real else complex(v, self.smooth(nm + "~i", x))

    # ---- loop summaries: iterate the recurrence in the finite model
    def mu(self, name, ix):
        lp, key = self.loops[name]
        free = ix[len(ix) - lp["nfree"]:] if lp["nfree"] else ()
        own = ix[: len(ix) - lp["nfree"]]
        st = self.run_loop(lp, free)
        f = st[key]
        if isinstance(f, dict):
            if own in f:
                return f[own]
            return self.smooth("mu" + name, [repr(own)])
        return f

    def run_loop(self, lp, free):
        mk_ = ("loop", id(lp), free)
        r = self.memo.get(mk_)
        if r is not None:
            return r
        env0 = {"@fr%d" % i: int(v) if not isinstance(v, str) else 0 for i, v in enumerate(free)}
        shapes = {}
        state = {}
        for k, (init, upd, (slot, desc)) in lp["vars"].items():
            labs = (desc[2] or []) if desc[0] == "a" else []
            shapes[k] = list(itertools.product(*[range(self.ilen(T.length(l), env0)) for l in labs])) if labs else None
            state[k] = self.table(init, shapes[k], env0)
        if lp["extents"]:
            its = list(itertools.product(*[range(self.ilen(L, env0)) for L in lp["extents"]]))
        else:
            its = None
        savedm, saveds = self.memo, self.lcstate
        n = 0
        try:
            while True:
                self.lcstate = dict(saveds)
                self.lcstate.update(state)
                self.memo = {}
                env = dict(env0)
                if its is not None:
                    if n >= len(its):
                        break
                    for j, v in enumerate(its[n]):
                        env["@it%d" % j] = v
                    if not self.truthy(self.ev(lp["mask"], env)):
                        n += 1
                        continue
                if not self.truthy(self.ev(lp["cont"], env)):
                    break
                brk = self.truthy(self.ev(lp["brk"], env))
                state = {k: self.table(upd, shapes[k], env) for k, (init, upd, _) in lp["vars"].items()}
                if brk:
                    break
                n += 1
                self.iters += 1
                if n > 12 and its is None:
                    raise Inconclusive("loop does not end in the model")
        finally:
            self.memo, self.lcstate = savedm, saveds
        self.memo[mk_] = state
        return state

    def table(self, e, shape, env):
        if shape is None:
            return self.ev(e, env)
        out = {}
        for ix in shape:
            e2 = dict(env)
            for i, v in enumerate(ix):
                e2["@%d" % i] = v
            out[ix] = self.ev(e, e2)
        return out


def flatten(v):
    if isinstance(v, tuple):
        return [y for z in v for y in flatten(z)]
    return [] if v == "<filtered>" else [v]


def close(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    for v in (a, b):
        if isinstance(v, complex) and (cmath.isnan(v) or cmath.isinf(v)) or isinstance(v, float) and (v != v or abs(v) == float("inf")):
            raise Inconclusive("nonfinite")
    d, m = abs(a - b), 1e-3 + abs(a) + abs(b)
    if 1e-6 * m < d <= 2e-2 * m:
        raise Small
    return d <= 1e-6 * m


class Small(Exception):
    """difference that a cancellation in one model could explain; it counts when it shows in several models"""


def loop_table(*interps):
    """mu-name -> (loop summary, variable)"""
    t = {}
    for I in interps:
        for lp in I.loops:
            for k, h in lp["hash"].items():
                t["mu:" + h] = (lp, k)
    return t


def ri_equal(a, b, trials=10, seed=1, lens=None, loops=None, vals=None):
    """True / False / None (inconclusive); plus a description of the differing model"""
    labels = sorted(a.labels | b.labels)
    good = 0
    why = None
    small = set()
    for t in range(trials):
        scale = (1.0, 1.0, 5.0, 60.0, 1.0)[t % 5]
        m = Model((seed, t), scale, zeros=(t % 5 == 4 or t % 5 == 1), lens=lens(seed, t) if lens else None, loops=loops, vals=vals)
        for rep in range(3):
            env = {}
            try:
                for l in labels:
                    n = m.ilen(T.length(l), {})
                    if n <= 0:
                        raise Inconclusive("empty")
                    env[l] = hsh(seed, t, rep, l) % n
                x, y = m.ev(a, env), m.ev(b, env)
                if isinstance(x, str) and x.startswith("<undef") and isinstance(y, str):
                    if x != y:
                        return False, "index %s: %s vs %s" % (env, x, y)
                    why = "precondition"
                    continue
                if not close(x, y):
                    return False, "index %s: %s vs %s" % ({l: env[l] for l in labels}, m.fmt(x), m.fmt(y))
                good += 1
            except Small:
                small.add(t)
                if len(small) >= max(3, trials // 4):
                    return False, "index %s: %s vs %s" % ({l: env[l] for l in labels}, m.fmt(x), m.fmt(y))
                why = "rounding"
            except Inconclusive as ex:
                why = str(ex)
            except RecursionError:
                return None, "recursion"
    if good == 0:
        return None, why
    return True, good
