"""seed.py: write a planted bug under /verif/seeded and check its demonstration in a scratch copy (developer aid)

usage: from seed import seed;  seed(id, prop, [(file, old, new[, nth])], needs, breaks, demo_source)
"""
import json, os, shutil, subprocess, sys, tempfile

SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def run_demo(cwd, d):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)


def seed(id, prop, edits, needs, breaks, demo, checks=None):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        r = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for e in edits:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 1
            p = os.path.join(r, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            parts = s.split(old)
            assert len(parts) > n, (id, f, old)
            s = old.join(parts[:n]) + new + old.join(parts[n:])
            compile(s, p, "exec")
            open(p, "w", newline="").write(s)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = run_demo("/repo", d)
        b = run_demo(r, d)
        ok = a.returncode == 0 and b.returncode != 0
        print("%s demo: clean rc=%d, patched rc=%d %s" % (id, a.returncode, b.returncode, "" if ok else "BAD\n" + a.stdout[-600:] + a.stderr[-900:] + "\n--patched--\n" + b.stdout[-500:] + b.stderr[-500:]))
        for pr in [prop] + list(checks or []):
            env = dict(os.environ, VERIF_EVID=tmp)
            x = subprocess.run([sys.executable, "/verif/check.py", pr, "--root", r], capture_output=True, text=True, env=env)
            print("   %s rc=%d %s" % (pr, x.returncode, (x.stdout.splitlines() or [x.stderr[-200:]])[0][:150]))
        return ok
    finally:
        shutil.rmtree(tmp)
