"""auto.py SEED COUNT [FILTER]: random syntactic mutants of the analysed functions, checked by the properties that analyse them (developer aid)

Every mutant that no check reports is printed: equivalent, outside every property, or a hole. Needs tools/all.sh run first (function map in /tmp/allev)."""
import ast, difflib, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.environ.get("MUT_REPO", "/repo")
SKIP = ("plot", "Plot", "tweak", "format", "label", "print", "log", "title", "add_argument", "progress", "ArgumentParser")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&"}
NP = {"nansum": "sum", "sum": "mean", "nanmean": "mean", "nanmedian": "median", "median": "mean", "nanmax": "nanmin", "nanmin": "nanmax", "max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax", "isnan": "isinf", "isfinite": "isnan",
      "abs": "real", "real": "imag", "imag": "real", "sqrt": "abs", "ones": "zeros", "zeros": "ones", "ceil": "floor", "floor": "ceil", "round": "floor", "nanstd": "std", "std": "var", "logical_and": "logical_or", "logical_or": "logical_and", "nan_to_num": "abs", "conjugate": "real", "conj": "real", "log10": "log", "log": "log10", "radians": "degrees", "degrees": "radians", "sin": "cos", "cos": "sin", "ones_like": "zeros_like", "zeros_like": "ones_like", "arctan2": "hypot"}


def funcs():
    m = {}
    for f in glob.glob("/tmp/allev/P??.json"):
        d = json.load(open(f))
        for q in d["coverage"].get("functions", d.get("functions", [])) if isinstance(d["coverage"], dict) else d["functions"]:
            m.setdefault(q, set()).add(d["property"])
    return m


def sites(path):
    """(function qualified name, start, end, replacement, description) in characters of the source"""
    src = open(path, newline="").read()
    b = src.encode()
    starts = [0]
    for l in b.splitlines(keepends=True):
        starts.append(starts[-1] + len(l))
    mod = os.path.relpath(path, ROOT)[:-3].replace(os.sep, ".")
    tree = ast.parse(src)
    out = []

    def sp(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, z = sp(n)
        return b[a:z].decode()

    def add(q, n, new):
        a, z = sp(n)
        if b[a:z].decode() != new:
            out.append((q, n.lineno, a, z, new))

    def callee(n):
        f = n.func
        return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""

    scope = []
    deep = os.environ.get("AUTO_OPS") == "inter"

    def similar(x, names):
        return [y for y in names if y != x and len(y) > 2 and difflib.SequenceMatcher(None, x, y).ratio() > 0.72]

    def interact(n, q):
        """conditions that also depend on another option, and one variable used for a similar one"""
        fn = scope[-1] if scope else None
        if fn is None:
            return
        flags = [a.arg for a, d in zip((fn.args.posonlyargs + fn.args.args)[::-1], fn.args.defaults[::-1]) if isinstance(d, ast.Constant) and (d.value in (None, True, False))]
        names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args})
        if isinstance(n, (ast.If, ast.IfExp)):
            for p in random.sample(flags, min(2, len(flags))):
                if p not in text(n.test) and p not in ("log",):
                    add(q, n.test, "(" + text(n.test) + ") " + random.choice(("and not ", "and ", "or ")) + p)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            c = similar(n.id, names)
            if c:
                add(q, n, random.choice(c))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and flags:
            add(q, n, "if not %s: %s" % (random.choice(flags), " ".join(text(n).split("\n")))) if "#" not in text(n) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)) else None

    def walk(n, q):
        if isinstance(n, ast.Call) and (callee(n) in SKIP or text(n.func).startswith(("plt.", "ax.", "fig.", "log", "logger"))):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            return
        if deep:
            interact(n, q)
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    if any(s in c.name for s in ("plot", "Plot", "tweak")):
                        continue
                    if isinstance(c, ast.FunctionDef):
                        scope.append(c)
                    for x in c.body:
                        walk(x, q + "." + c.name if q else mod + "." + c.name)
                    if isinstance(c, ast.FunctionDef):
                        scope.pop()
                else:
                    walk(c, q)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(q, n, text(n.left) + " " + CMP[type(n.ops[0])] + " " + text(n.comparators[0]))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(q, n, "(" + text(n.left) + " " + OPS[type(n.op)] + " " + text(n.right) + ")")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(q, n, text(n.left))
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(q, n, "(" + o.join("(" + text(v) + ")" for v in n.values) + ")")
            for i in range(len(n.values)):
                vs = n.values[:i] + n.values[i + 1:]
                add(q, n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + text(v) + ")" for v in vs) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(q, n, "(" + text(n.operand) + ")")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(q, n, str(not v))
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                add(q, n, repr(v + 1) if isinstance(v, int) else repr(v * 1.5))
                if isinstance(v, int) and v:
                    add(q, n, repr(v - 1))
        elif isinstance(n, ast.Call):
            nm = callee(n)
            if isinstance(n.func, ast.Attribute) and nm in NP:
                t = text(n.func)
                add(q, n.func, t[: -len(nm)] + NP[nm])
            for i in range(len(n.args) - 1):
                x, y = n.args[i], n.args[i + 1]
                if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred):
                    a = [text(v) for v in n.args]
                    a[i], a[i + 1] = a[i + 1], a[i]
                    a += [text(k) for k in n.keywords]
                    if a[i] != a[i + 1]:
                        add(q, n, text(n.func) + "(" + ", ".join(a) + ")")
            for i in range(len(n.keywords)):
                a = [text(v) for v in n.args] + [text(k) for j, k in enumerate(n.keywords) if j != i]
                if n.keywords[i].arg not in ("log", "verbose", "debug", None):
                    add(q, n, text(n.func) + "(" + ", ".join(a) + ")")
        elif isinstance(n, (ast.AugAssign, ast.Assign)) and q:
            if isinstance(n, ast.AugAssign) or any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
                add(q, n, "pass")
            elif isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
                add(q, n, "pass")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and q:
            add(q, n, "pass")
        elif isinstance(n, ast.Delete):
            add(q, n, "pass")
        elif isinstance(n, ast.If) and q:
            add(q, n.test, "True")
            add(q, n.test, "False")
        elif isinstance(n, ast.IfExp):
            add(q, n, text(n.body))
            add(q, n, text(n.orelse))
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(q, n, "pass")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
            e = [text(x) for x in n.value.elts]
            i = random.randrange(len(e) - 1)
            e[i], e[i + 1] = e[i + 1], e[i]
            add(q, n, "return " + ", ".join(e))
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if any(s in c.name for s in ("plot", "Plot", "tweak")):
                    continue
                q2 = q + "." + c.name if q else mod + "." + c.name
                for x in c.args.defaults + c.args.kw_defaults + c.body if isinstance(c, ast.FunctionDef) else c.body:
                    if x is not None:
                        walk(x, q2)
            else:
                walk(c, q)

    walk(tree, "")
    return src, [x for x in out if x[0]]


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    flt = sys.argv[3] if len(sys.argv) > 3 else ""
    random.seed(seed)
    m = funcs()
    cand, uncovered = [], set()
    for pk in ("RMutils", "RMtools_1D", "RMtools_3D"):
        for d, _, fs in os.walk(os.path.join(ROOT, pk)):
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    src, s = sites(p)
                    for x in s:
                        q = x[0]
                        while q and q not in m and q.count(".") > 1:
                            q = q.rsplit(".", 1)[0]
                        if q in m:
                            if flt in x[0]:
                                cand.append((p, src, x, sorted(m[q])))
                        else:
                            uncovered.add(x[0])
    # evenly over functions
    by = {}
    for c in cand:
        by.setdefault(c[2][0], []).append(c)
    picks, keys = [], sorted(by)
    for k in keys:
        random.shuffle(by[k])
    while len(picks) < count and any(by.values()):
        for k in random.sample(keys, len(keys)):
            # large functions get more
            for _ in range(1 + len(by[k]) // 60):
                if by[k] and len(picks) < count:
                    picks.append(by[k].pop())
    print("%d mutants of %d in %d functions; %d functions not analysed by any check" % (len(picks), len(cand), len(keys), len(uncovered)))
    if os.environ.get("AUTO_LIST"):
        print("\n".join(sorted(uncovered)))
        return

    def one(c):
        p, src, (q, line, a, z, new), props = c
        b = src.encode()
        mut = b[:a] + new.encode() + b[z:]
        try:
            compile(mut, p, "exec")
        except SyntaxError:
            return None
        d = tempfile.mkdtemp(prefix="auto")
        try:
            for n in ("RMutils", "RMtools_1D", "RMtools_3D"):
                shutil.copytree(os.path.join(ROOT, n), os.path.join(d, n), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.fits"))
            for n in ("setup.py", "README.md"):
                shutil.copy(os.path.join(ROOT, n), d)
            open(os.path.join(d, os.path.relpath(p, ROOT)), "wb").write(mut)
            res = {}
            order = sorted(props, key=lambda x: x in ("P29", "P05", "P26", "P04"))
            for pr in order:
                try:
                    r = subprocess.run([sys.executable, "/verif/check.py", pr, "--root", d], capture_output=True, text=True, env=dict(os.environ, VERIF_EVID=d), timeout=600)
                except subprocess.TimeoutExpired:
                    res[pr] = "timeout"
                    continue
                und = r.stdout.split(" undecided")[0].split(", ")[-1] if " undecided" in r.stdout else "?"
                res[pr] = "%d/u%s" % (r.returncode, und)
                if r.returncode == 1:
                    break
            return c, res
        finally:
            shutil.rmtree(d)

    killed = n = 0
    with ThreadPoolExecutor(int(os.environ.get("AUTO_J", "7"))) as ex:
        for r in ex.map(one, picks):
            if r is None:
                continue
            n += 1
            c, res = r
            if any(v.startswith("1/") for v in res.values()):
                killed += 1
                continue
            p, src, (q, line, a, z, new), props = c
            old = src.encode()[a:z].decode()
            print("%s:%d %s\n    - %s\n    + %s\n    %s" % (os.path.relpath(p, ROOT), line, q.split(".")[-1], " ".join(old.split())[:160], " ".join(new.split())[:160], res), flush=True)
    print("killed %d of %d" % (killed, n))


main()
