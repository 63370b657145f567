"""shared vocabulary for the specifications (terms of the value-numbering domain)"""
from sa.verdict import *
from sa.interp import *
from sa import term as T

PIX = {1: [], 2: ["p"], 3: ["y", "x"]}


def dom(n):
    return ["f"] + PIX[n]


def ssum(label, body, like=None):
    """sum over a fresh index variable `label` ranging over the extent of `like`"""
    if like is not None:
        T.set_length(label, length(like))
    return red("sum", label, body, length(label))


def anyof(label, body, like=None):
    if like is not None:
        T.set_length(label, length(like))
    return red("any", label, body, length(label))


def ei(x):
    """exp(i x)"""
    return exp(mul(I_, x))


def arr_of(labels, expr):
    """specification array with axes `labels`"""
    return Arr(tuple(ONE_AX if l == 1 else ax(l) for l in labels), expr)


def value(chk, rule, construct, qual, build, where=None, opaque=(), hooks=None):
    """analyse a function; returns (value, state, interp) or None (recorded as undecided)"""
    where = chk.where(qual)

    def go():
        I = chk.interp(opaque=opaque, hooks=hooks or {})
        st = I.new_state()
        a, k = build(I, st)
        v, st2 = I.run(qual, a, k, st)
        chk.absorb(I)
        if v is BOTTOM:
            r = [e for e in I.effects if e.kind == "raise"]
            if r and or_(*[e.guard for e in r]) is TRUE:
                chk.holds(rule, construct + ": returns", False, "every path raises %s" % " or ".join(sorted({str(e.name) for e in r})), r[-1].loc)
                return None
            raise Abort("no return")
        return v, st2, I
    return chk.guarded(rule, construct, go, where)


def field(v, name):
    if isinstance(v, Tup) and v.names and name in v.names:
        return v.items[v.names.index(name)]
    raise Abort("no field %s in %r" % (name, v))
