"""probe.py FUNC arg=kind ... : print what the engine computes for a repository function (developer aid)"""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from checks.common import *
from sa import verdict

def pv(v, st, d=0, lim=900):
    if isinstance(v, Ref):
        v = st.heap[v.id]
    if isinstance(v, Tup):
        for i, x in enumerate(v.items):
            print(" " * d, v.names[i] if v.names else i)
            pv(x, st, d + 2, lim)
    elif isinstance(v, Lst):
        for i, x in enumerate(v.items):
            print(" " * d, "[%d]" % i)
            pv(x, st, d + 2, lim)
    elif isinstance(v, Dct):
        for kk, (ke, x) in v.ent.items():
            print(" " * d, show(ke))
            pv(x, st, d + 2, lim)
    elif isinstance(v, E):
        print(" " * d, show(v, lim))
    elif isinstance(v, Arr) and v.axes is not None:
        print(" " * d, "Arr", v.axes, show(v.expr, lim) if isinstance(v.expr, E) else v.expr)
    else:
        print(" " * d, str(v)[:lim])

def main(f):
    def go():
        f()
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
