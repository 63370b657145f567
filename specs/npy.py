"""library functions given by their definition in terms of those the engine models directly"""
import numpy as np


def clip(a, a_min=None, a_max=None):
    if a_min is not None:
        a = np.maximum(a, a_min)
    if a_max is not None:
        a = np.minimum(a, a_max)
    return a


def average(a, axis=None, weights=None, keepdims=False):
    if weights is None:
        return np.mean(a, axis=axis, keepdims=keepdims)
    return np.sum(a * weights, axis=axis, keepdims=keepdims) / np.sum(np.zeros_like(a) + weights, axis=axis, keepdims=keepdims)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in zip(reversed(condlist), reversed(choicelist)):
        r = np.where(c, v, r)
    return r


def choose(a, choices):
    r = choices[-1]
    for k in range(len(choices) - 1):
        r = np.where(a == k, choices[k], r)
    return r


def extract(condition, arr):
    return arr[condition]


def compress(condition, a, axis=None):
    if axis is None or axis == 0:
        return a[condition]
    return a[:, condition]


def take(a, indices, axis=None):
    if axis is None or axis == 0:
        return a[indices]
    if axis == -1:
        return a[..., indices]
    return a[:, indices]


def polyval(p, x):
    y = x * 0
    for k in range(len(p)):
        y = y * x + p[k]
    return y


def polynomial_polyval(x, c):
    y = x * 0
    for k in range(len(c) - 1, -1, -1):
        y = y * x + c[k]
    return y


def ptp(a, axis=None):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def norm(x, axis=None):
    return np.sqrt(np.sum(np.abs(x) ** 2, axis=axis))


def trapz(y, x=None, dx=1.0):
    if x is None:
        return np.sum(dx * (y[1:] + y[:-1]) / 2)
    return np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2)


def masked_invalid(a):
    return np.ma.masked_where(~np.isfinite(a), a)


def isin(a, vals):
    r = a != a
    for v in vals:
        r = r | (a == v)
    return r


def isreal(x):
    return np.imag(x) == 0


def copysign(a, b):
    return np.where(b < 0, -np.abs(a), np.abs(a))


def expm1(x):
    return np.exp(x) - 1


def log1p(x):
    return np.log(1 + x)


def isposinf(x):
    return x == np.inf


def isneginf(x):
    return x == -np.inf


def reduce(f, seq, *init):
    r, rest = (init[0], seq) if len(init) else (seq[0], seq[1:])
    for a in rest:
        r = f(r, a)
    return r


def chain(*seqs):
    return [a for s in seqs for a in s]


def chain_from(seqs):
    return [a for s in seqs for a in s]


def it_compress(data, selectors):
    return [a for a, t in zip(data, selectors) if t]


def starmap(f, seq):
    return [f(*a) for a in seq]


def filter_(f, seq):
    if f is None:
        return [a for a in seq if a]
    return [a for a in seq if f(a)]


def islice(seq, *k):
    return list(seq)[slice(*k)]


def max_by(seq, key):
    it = list(seq)
    best, kb = it[0], key(it[0])
    for a in it[1:]:
        ka = key(a)
        if ka > kb:
            best, kb = a, ka
    return best


def min_by(seq, key):
    it = list(seq)
    best, kb = it[0], key(it[0])
    for a in it[1:]:
        ka = key(a)
        if ka < kb:
            best, kb = a, ka
    return best
