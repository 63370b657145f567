"""mut.py PROP[,PROP..] FILE OLD NEW [N]: run checks on a scratch copy with OLD replaced by NEW (developer aid)"""
import os, shutil, subprocess, sys, tempfile
props, f, old, new = sys.argv[1:5]
TIER = os.environ.get("MUT_TIER", "quick")
d = tempfile.mkdtemp(prefix="mut")
try:
    for n in ("RMutils", "RMtools_1D", "RMtools_3D", "setup.py", "README.md"):
        s = os.path.join(os.environ.get("MUT_REPO", "/repo"), n)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(d, n), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.fits"))
        else:
            shutil.copy(s, d)
    p = os.path.join(d, f)
    src = open(p).read()
    k = src.count(old)
    if not k:
        print("PATTERN NOT FOUND"); sys.exit(2)
    n = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    parts = src.split(old)
    src = old.join(parts[:n]) + new + old.join(parts[n:])
    compile(src, p, "exec")
    open(p, "w").write(src)
    for pr in props.split(","):
        env = dict(os.environ, VERIF_EVID=d)
        r = subprocess.run([sys.executable, "/verif/check.py", pr, "--root", d, "--tier", TIER], capture_output=True, text=True, env=env)
        lines = r.stdout.strip().splitlines()
        print("[%d of %d] %s rc=%d | %s" % (n, k, pr, r.returncode, lines[0][:160] if lines else r.stderr[-300:]))
        for l in lines[1:3]:
            print("     ", l[:260])
finally:
    shutil.rmtree(d)
