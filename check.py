#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] : run one static check against /repo"""
import argparse
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=("quick", "thorough"))
    ap.add_argument("--root", default=os.environ.get("VERIF_REPO", "/repo"))
    a = ap.parse_args()
    import threading
    from sa import verdict
    mod = importlib.import_module("checks." + a.prop.lower())
    out = []

    def go():
        chk = verdict.Check(a.prop, a.tier, a.root)
        try:
            kw = mod.run(chk) or {}
            out.append(chk.finish(**kw))
        except verdict.Broken as ex:
            for o in chk.obls:
                if o["verdict"] == "VIOLATED":
                    chk.finish()
            print("ANALYSIS-BROKEN property=%s: %s" % (a.prop, ex))
            out.append(3)

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(out[0] if out else 4)


if __name__ == "__main__":
    main()
