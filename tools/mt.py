"""mt.py FILE.py : run a table of mutations; FILE defines T = [(prop, file, old, new[, nth]), ...]; new starting with '=' marks an equivalent rewrite (developer aid)"""
import subprocess, sys, runpy, concurrent.futures as cf
T = runpy.run_path(sys.argv[1])["T"]
def one(t):
    eqv = t[3].startswith("=")
    new = t[3][1:] if eqv else t[3]
    o = subprocess.run([sys.executable, "/verif/tools/mut.py", t[0], t[1], t[2], new] + [str(x) for x in t[4:]], capture_output=True, text=True)
    l = (o.stdout or o.stderr[-200:]).splitlines()
    return eqv, t, l[0] if l else "?"
with cf.ThreadPoolExecutor(6) as ex:
    for eqv, t, l in ex.map(one, T):
        bad = ("rc=1" in l) == eqv or "rc=3" in l or "rc=" not in l
        print("%s %s %-45s %s" % ("BAD " if bad else "ok  ", "equiv" if eqv else "bug  ", repr(t[3][-40:]), l[l.find("rc="):][:100] if "rc=" in l else l[:150]))
