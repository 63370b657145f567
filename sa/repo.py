"""Front end: parse the repository, resolve modules, imports and functions."""
import ast
import hashlib
import os
import warnings


def absolute(mod, n):
    """module named by a from-import, relative ones resolved"""
    if not n.level:
        return n.module or ""
    parts = mod.name.split(".")
    if not os.path.basename(mod.path) == "__init__.py":
        parts = parts[:-1]
    parts = parts[: len(parts) - (n.level - 1)]
    return ".".join(parts + ([n.module] if n.module else []))


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(src, path)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, []
        for n in self.tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.imports[a.asname or a.name] = absolute(self, n) + "." + a.name
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            self.assigns.append(n)
        elif isinstance(n, (ast.If, ast.Try, ast.With)):
            # optional dependencies are taken as installed: what the body defines wins over its handlers
            for h in getattr(n, "handlers", []):
                for d in h.body:
                    self._top(d)
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.stmt):
                    self._top(c)


class Repo:
    PKGS = ("RMutils", "RMtools_1D", "RMtools_3D")

    def __init__(self, root="/repo", pkgs=PKGS, extra=None):
        self.root = root
        self.modules = {}
        for pkg in pkgs:
            base = os.path.join(root, pkg)
            for d, _, files in sorted(os.walk(base)):
                for f in sorted(files):
                    if f.endswith(".py"):
                        p = os.path.join(d, f)
                        rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                        if rel.endswith(".__init__"):
                            rel = rel[: -len(".__init__")]
                        self.add(rel, p)
        for name, p in (extra or {}).items():
            self.add(name, p)

    def add(self, name, path):
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.modules[name] = Module(name, path, src)

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in sorted(names or self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()

    def resolve(self, qual):
        """qualified name -> ('func'|'class'|'module'|'const', module, node) or None, following re-exports"""
        seen = set()
        while qual not in seen:
            seen.add(qual)
            if qual in self.modules:
                return ("module", self.modules[qual], None)
            mod, _, attr = qual.rpartition(".")
            m = self.modules.get(mod)
            if m is None:
                return None
            if attr in m.funcs:
                return ("func", m, m.funcs[attr])
            if attr in m.classes:
                return ("class", m, m.classes[attr])
            if attr in m.imports:
                qual = m.imports[attr]
                continue
            for a in m.assigns:
                for t in getattr(a, "targets", [getattr(a, "target", None)]):
                    if isinstance(t, ast.Name) and t.id == attr:
                        return ("const", m, a)
            return None
        return None

    def rel(self, path):
        return os.path.relpath(path, self.root) if path.startswith(self.root) else path
