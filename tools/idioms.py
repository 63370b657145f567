"""idioms.py : pairs of equivalent array idioms; the engine must prove each pair equal (developer aid)

x, y, w: float vectors over k; z: complex vector over k; c: float cube (f, y, x); m: bool vector over k; q: float vector over f; i: positive integer; n: len(x)"""
import os, sys, tempfile, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
P = """
np.sum(x * y) | np.dot(x, y)
np.sum(x * y) | x @ y
np.sum(x * y) | (x * y).sum()
np.sum(x * y) | np.einsum("i,i->", x, y)
np.sum(x * y) | sum(a * b for a, b in zip(x, y))
np.sum(x * y) | np.vdot(x, y)
np.sum(x * y) | np.add.reduce(x * y)
np.sum(x) | x.mean() * len(x)
np.mean(x) | np.sum(x) / x.size
np.mean(x) | np.average(x)
np.sum(w * x) / np.sum(w) | np.average(x, weights=w)
np.std(x) | np.sqrt(np.mean((x - np.mean(x)) ** 2))
np.std(x) | np.sqrt(np.var(x))
np.var(x) | np.std(x) ** 2
np.abs(z) | np.sqrt(z.real**2 + z.imag**2)
np.abs(z) ** 2 | (z * np.conj(z)).real
np.abs(z) | np.hypot(z.real, z.imag)
np.angle(z) | np.arctan2(z.imag, z.real)
np.exp(1j * x) | np.cos(x) + 1j * np.sin(x)
z.conj() | z.real - 1j * z.imag
np.where(m, x, y) | np.choose(m, [y, x])
np.where(m, x, y) | x * m + y * ~m
np.where(m, x, 0.0) | x * m
np.where(m, x, y) | np.select([m], [x], default=y)
np.where(m, x, y) | np.array([a if t else b for t, a, b in zip(m, x, y)])
np.sum(np.where(m, x, 0.0)) | np.sum(x[m])
np.sum(m) | np.count_nonzero(m)
np.sum(m) | len(x[m])
np.sum(m) | m.sum()
np.sum(m) | np.flatnonzero(m).size
np.sum(m) | len(np.where(m)[0])
np.any(m) | np.sum(m) > 0
np.all(m) | not np.any(~m)
~m | np.logical_not(m)
m & (x > y) | np.logical_and(m, x > y)
x[::-1] | np.flip(x)
x[::-1] | np.flipud(x)
x[1:] - x[:-1] | np.diff(x)
np.max(x) | x.max()
np.max(x) | np.amax(x)
np.max(x) | max(x)
np.max(x) | -np.min(-x)
np.argmax(x) | x.argmax()
np.argmax(x) | np.argmin(-x)
np.maximum(x, y) | np.where(x >= y, x, y)
np.clip(x, 0, 1) | np.minimum(np.maximum(x, 0), 1)
np.arange(n) * 2.0 | np.array([2.0 * k for k in range(n)])
np.zeros(n) | np.zeros_like(x)
np.zeros(n) | np.full(n, 0.0)
np.zeros(n) | 0 * np.ones(n)
np.ones(len(x)) | np.ones(x.shape)
np.linspace(0, 1, n) | np.arange(n) / (n - 1)
np.outer(x, y) | x[:, None] * y[None, :]
np.outer(x, y) | x[:, np.newaxis] * y
np.outer(x, y) | np.multiply.outer(x, y)
np.outer(x, y) | np.einsum("i,j->ij", x, y)
np.outer(x, y) | x.reshape(-1, 1) * y.reshape(1, -1)
np.sum(c, axis=0) | c.sum(axis=0)
np.sum(c, axis=(1, 2)) | c.sum(axis=2).sum(axis=1)
np.sum(c, axis=(1, 2)) | np.sum(c.reshape(c.shape[0], -1), axis=1)
np.sum(c, axis=0) | np.einsum("fyx->yx", c)
np.sum(c * q[:, None, None], axis=0) | np.tensordot(q, c, axes=1)
np.sum(c * q[:, None, None], axis=0) | np.einsum("f,fyx->yx", q, c)
np.sum(c * q[:, None, None], axis=0) | np.sum(c * q.reshape(-1, 1, 1), axis=0)
np.sum(c * q[:, None, None], axis=0) | (c.T * q).T.sum(axis=0)
np.transpose(c) | c.T
np.transpose(c) | np.swapaxes(c, 0, 2)
np.transpose(c, (1, 2, 0)) | np.moveaxis(c, 0, -1)
np.transpose(c, (1, 2, 0)) | np.rollaxis(c, 0, 3)
c[:, 1, 2] | c[..., 1, 2]
c[0] | c[0, :, :]
c[:, None] | np.expand_dims(c, 1)
np.nansum(x) | np.sum(np.where(np.isnan(x), 0.0, x))
np.nansum(x) | np.sum(np.nan_to_num(x, nan=0.0))
np.nansum(x) | np.sum(x[~np.isnan(x)])
np.nanmean(x) | np.mean(x[np.isfinite(x) | np.isinf(x)])
np.isnan(x) | x != x
x**2 | np.square(x)
x**2 | x * x
x**2 | np.power(x, 2)
np.sqrt(w) | w**0.5
np.log10(w) | np.log(w) / np.log(10)
10**x | np.power(10.0, x)
np.exp(np.log(w)) | w
np.degrees(x) | x * 180.0 / np.pi
np.rad2deg(x) | np.degrees(x)
np.deg2rad(x) | np.radians(x)
x % 180 | np.mod(x, 180)
x % 180 | x - 180 * np.floor(x / 180)
x // 2 | np.floor_divide(x, 2)
np.polyval([x[0], y[0], w[0]], q) | x[0] * q**2 + y[0] * q + w[0]
np.polyval([x[0], y[0], w[0]], q) | np.poly1d([x[0], y[0], w[0]])(q)
np.concatenate([x, y]) | np.hstack([x, y])
np.concatenate([x, y]) | np.append(x, y)
np.concatenate([x, y]) | np.r_[x, y]
np.stack([x, y]) | np.array([x, y])
np.stack([x, y]) | np.vstack([x, y])
np.stack([x, y], axis=1) | np.column_stack([x, y])
np.stack([x, y], axis=1) | np.array([x, y]).T
np.stack([x, y], axis=-1) | np.c_[x, y]
np.stack([x, y]).sum(axis=0) | x + y
x.copy() | np.array(x)
x.copy() | np.copy(x)
x.astype(float) | np.asarray(x, dtype=float)
x.tolist()[0] | x[0]
float(x[0]) | x[0]
x[len(x) - 1] | x[-1]
x[n // 2] | x.item(n // 2)
np.cumsum(x)[-1] | np.sum(x)
np.interp(q, x, y)[0] | np.interp(q[0], x, y)
np.full(n, 3.0) | 3.0 * np.ones(n)
np.repeat(x[0], n) | np.full(n, x[0])
np.tile(x, (i, 1))[0] | x
np.broadcast_to(q[:, None, None], c.shape)[0, 0, 0] | q[0]
np.ravel(c) | c.flatten()
np.ravel(c) | c.reshape(-1)
np.squeeze(c[:, :1, :1]) | c[:, 0, 0]
np.real(z) + np.imag(z) | z.real + z.imag
np.vectorize(lambda a: a * 2)(x) | x * 2
np.apply_along_axis(np.sum, 0, c) | c.sum(axis=0)
list(map(float, x))[0] | x[0]
np.array(list(map(lambda a: a + 1, x))) | x + 1
np.fromiter((a + 1 for a in x), dtype=float) | x + 1
np.prod(x) | x.prod()
np.trapz(y, x) | np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]) / 2)
np.median(x) | np.percentile(x, 50)
np.median(x) | np.quantile(x, 0.5)
np.nanmedian(x) | np.median(x[~np.isnan(x)])
np.sort(x)[0] | np.min(x)
np.argsort(x)[0] | np.argmin(x)
np.sign(x) * np.abs(x) | x
np.ceil(x) | -np.floor(-x)
np.isfinite(x) | ~(np.isnan(x) | np.isinf(x))
np.count_nonzero(x > 0) | (x > 0).sum()
np.nonzero(m)[0] | np.where(m)[0]
np.nonzero(m)[0] | np.flatnonzero(m)
np.nonzero(m)[0] | np.arange(n)[m]
x[m] | x[np.where(m)]
x[m] | np.compress(m, x)
x[m] | np.extract(m, x)
np.take(x, [0, 2]) | x[[0, 2]]
x.reshape(1, -1)[0] | x
np.ma.masked_where(m, x).sum() | np.sum(x[~m])
np.ma.masked_invalid(x).mean() | np.nanmean(np.where(np.isinf(x), np.nan, x))
np.nanmax(x) | np.max(x[~np.isnan(x)])
np.nanargmax(x) | np.argmax(np.where(np.isnan(x), -np.inf, x))
np.subtract(x, y) | x - y
np.multiply(x, y) | x * y
np.divide(x, w) | x / w
np.negative(x) | -x
np.reciprocal(w) | 1 / w
np.logical_or.reduce([m, x > 0, y > 0]) | m | (x > 0) | (y > 0)
np.ptp(x) | x.max() - x.min()
np.linalg.norm(x) | np.sqrt(np.sum(x**2))
np.abs(x).max() | np.max(np.fabs(x))
math.sqrt(w[0]) | np.sqrt(w[0])
abs(z)[0] | np.absolute(z)[0]
np.meshgrid(x, y)[0] | np.tile(x, (len(y), 1))
np.mgrid[0:3, 0:4][0] | np.indices((3, 4))[0]
divmod(i, 4)[0] | i // 4
round(3.5 * 2) | 7
int(np.floor(i / 2)) | i // 2
sum(1 for t in m if t) | np.sum(m)
len([a for a in x if a > 0]) | np.sum(x > 0)
any(t for t in m) | np.any(m)
min(x[0], y[0]) | np.minimum(x[0], y[0])
np.nan_to_num(x, nan=0.0) | np.where(np.isnan(x), 0.0, np.nan_to_num(x, nan=0.0))
np.all(np.isfinite(x)) | np.isfinite(x).all()
np.sum(x, where=m) | np.sum(x[m])
np.mean(x, where=m) | np.mean(x[m])
"""


def main():
    from checks.common import T, E, compare, ax
    from checks import common as C
    from sa import verdict, rint
    L = [tuple("return " + s.strip() for s in l.split(" | ", 1)) for l in P.strip().splitlines()]
    L = L * ("BLOCKS" not in os.environ) + [tuple(t.strip() for t in b.split("---\n")) for b in open(os.environ.get("BLOCKS", os.path.join(os.path.dirname(os.path.abspath(__file__)), "blocks.txt"))).read().split("===\n")]
    d = tempfile.mkdtemp(prefix="idm")
    os.mkdir(d + "/RMutils")
    for p in ("RMtools_1D", "RMtools_3D"):
        os.mkdir(d + "/" + p)
    open(d + "/RMutils/__init__.py", "w").close()
    src = "import math\nimport numpy as np\n"
    for j, (a, b) in enumerate(L):
        for t, e in (("a", a), ("b", b)):
            src += "def %s%d(x, y, w, z, c, m, q, i, n):\n    %s\n" % (t, j, e.replace("\n", "\n    "))
    open(d + "/RMutils/idm.py", "w").write(src)
    chk = verdict.Check("P00", "quick", d)

    def args(I, st):
        A = lambda n, l, **k: I.input_array(st, n, l, **k)
        return [A("x", ["k"]), A("y", ["k"]), A("w", ["k"], pos=True), A("z", ["k"], real=False), A("c", ["f", "yy", "xx"]),
                I.alloc(st, C.arr_of(["k"], T.boolatom(T.fn("b:m", T.lab("k"), raw=True)))), A("q", ["f"]), T.sym("i", pos=True), C.length("k")]
    bad = 0
    for j, (a, b) in enumerate(L):
        try:
            r, Is = [], []
            for t in "ab":
                I = chk.interp()
                st = I.new_state()
                v, st = I.run("RMutils.idm.%s%d" % (t, j), args(I, st), {}, st)
                r += [v, st]
                Is.append(I)
            k = len(chk.obls)
            chk.same_value("idiom", a, *(r[2:] + r[:2]), loops=rint.loop_table(*Is))
            vs = [o["verdict"] for o in chk.obls[k:]]
            res = "VIOLATED" if "VIOLATED" in vs else "UNDECIDED" if "UNDECIDED" in vs else "ok"
        except Exception as ex:
            res = "UNDECIDED %s: %s" % (type(ex).__name__, str(ex)[:80])
        if res != "ok":
            bad += 1
            print("%-10s %s   ==   %s" % (res, a.replace("\n", "; ")[-60:], b.replace("\n", "; ")[:110]))
            if len(sys.argv) > 1:
                print("       ", [str(o.get("detail"))[:300] for o in chk.obls[k:] if o["verdict"] != "HOLDS"][:1])
    print("%d of %d pairs not proved" % (bad, len(L)))


threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(100000)
t = threading.Thread(target=main)
t.start()
t.join()
