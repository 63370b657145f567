"""refac.py FILE.py...: equivalent rewrites made of several edits; T = {name: (props, [(file, old, new), ...])}; every check must stay quiet and decide (developer aid)"""
import concurrent.futures as cf, os, runpy, shutil, subprocess, sys, tempfile


def one(item):
    name, (props, edits) = item
    d = tempfile.mkdtemp(prefix="mut")
    out = []
    try:
        for n in ("RMutils", "RMtools_1D", "RMtools_3D", "setup.py", "README.md"):
            s = os.path.join(os.environ.get("MUT_REPO", "/repo"), n)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, n), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.fits"))
            else:
                shutil.copy(s, d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            src = open(p, newline="").read()
            crlf = "\r\n" in src
            src = src.replace("\r\n", "\n")
            if src.count(old) < 1:
                return ["BAD  %s: pattern not found: %r" % (name, old[:60])]
            src = src.replace(old, new)
            compile(src, p, "exec")
            open(p, "w", newline="").write(src.replace("\n", "\r\n") if crlf else src)
        for pr in props.split(","):
            r = subprocess.run([sys.executable, "/verif/check.py", pr, "--root", d], capture_output=True, text=True, env=dict(os.environ, VERIF_EVID=d))
            l = r.stdout.strip().splitlines()
            ok = r.returncode == 0 and " 0 undecided" in l[-1 if not l[0].startswith(pr) else 0]
            out.append("%s %s %s rc=%d %s" % ("ok  " if ok else "BAD ", name, pr, r.returncode, (l[0] if l else r.stderr[-200:])[:150]))
            if not ok:
                out += ["       " + x[:260] for x in l[1:4]]
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    T = {}
    for f in sys.argv[1:]:
        T.update(runpy.run_path(f)["T"])
    with cf.ThreadPoolExecutor(6) as ex:
        for o in ex.map(one, T.items()):
            print("\n".join(o))
