"""mutd.py PROP FILE OLD NEW : like mut.py, prints the details of what is violated or undecided (developer aid)"""
import os, shutil, subprocess, sys, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    for n in ("RMutils", "RMtools_1D", "RMtools_3D"):
        shutil.copytree(os.path.join(os.environ.get("MUT_REPO", "/repo"), n), os.path.join(d, n), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.fits"))
    for n in ("setup.py", "README.md"):
        shutil.copy("/repo/" + n, d)
    p = os.path.join(d, f)
    src = open(p).read()
    assert old in src
    open(p, "w").write(src.replace(old, new, 1))
    r = subprocess.run([sys.executable, "/verif/check.py", prop, "--root", d], capture_output=True, text=True, env=dict(os.environ, VERIF_EVID=d, VERIF_DETAIL="400"))
    print("\n".join(l[: int(os.environ.get("W", "600"))] for l in r.stdout.splitlines()[: int(os.environ.get("N", "8"))]), r.stderr[-500:])
finally:
    shutil.rmtree(d)
