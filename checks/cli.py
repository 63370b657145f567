"""argparse modelled: main() is analysed for given option values"""
from .common import *


class Cli:
    """options of a command-line tool; `given` maps dest to the value the user typed (already converted)"""
    free = True

    def __init__(self, given=None):
        self.given = dict(given or {})
        self.opts = {}
        self.used = set()

    def hooks(self):
        def parser(I, args, kw, st, node):
            return I.alloc(st, Ob("ext:parser", {}))

        def add(I, args, kw, st, node):
            if not self.mine(args[0], st):
                return NotImplemented
            names = [T.str_const(a) for a in args[1:]]
            d = kw.get("dest")
            if d is not None:
                dest = T.str_const(d)
            elif names[0].startswith("-"):
                l = [n for n in names if n.startswith("--")] or names
                dest = l[0].lstrip("-").replace("-", "_")
            else:
                dest = names[0]
            act = T.str_const(kw["action"]) if "action" in kw else "store"
            dflt = kw.get("default")
            if dflt is None:
                dflt = {"store_true": FALSE, "store_false": TRUE}.get(act, NONE)
            nargs = kw.get("nargs")
            typ = kw.get("type")
            o = dict(names=names, dest=dest, action=act, default=dflt, nargs=nargs, type=typ, const=kw.get("const"), positional=not names[0].startswith("-"), loc=node)
            self.opts.setdefault(dest, []).append(o)
            return NONE

        def group(I, args, kw, st, node):
            return args[0] if self.mine(args[0], st) else NotImplemented

        def parse(I, args, kw, st, node):
            if not self.mine(args[0], st):
                return NotImplemented
            at = {}
            for dest, os_ in self.opts.items():
                o = os_[0]
                n = o["nargs"]
                lst = n is not None and not (isinstance(n, E) and n.kind == "str" and T.str_const(n) == "?")
                if dest in self.given:
                    v = self.given[dest]
                    self.used.add(dest)
                    if lst and o["positional"] or lst and isinstance(v, list):
                        v = I.alloc(st, Lst(list(v) if isinstance(v, list) else [v]))
                elif o["positional"] and not (n is not None and not lst):
                    k = const_val(n) if isinstance(n, E) and n.kind == "poly" else 1
                    v = sym("opt:" + dest)
                    if lst:
                        v = I.alloc(st, Lst([sym("opt:%s:%d" % (dest, i)) for i in range(int(k or 1))]))
                else:
                    v = self.default(I, o, st)
                at[dest] = v
            self.args = I.alloc(st, Ob("args", at))
            return self.args

        def error(I, args, kw, st, node):
            if not self.mine(args[0], st):
                return NotImplemented
            I.do_raise(st, "SystemExit", node)
            return BOTTOM

        def set_defaults(I, args, kw, st, node):
            if not self.mine(args[0], st):
                return NotImplemented
            for k, v in kw.items():
                for o in self.opts.get(k, []):
                    o["default"] = v
            return NONE

        def known(I, args, kw, st, node):
            r = hooks[".parse_args"](I, args, kw, st, node)
            return r if r is NotImplemented or r is BOTTOM else Tup([r, I.alloc(st, Lst([]))])

        def nothing(I, args, kw, st, node):
            return NONE if self.mine(args[0], st) else NotImplemented
        hooks = {"argparse.ArgumentParser": parser, ".add_argument": add, ".add_argument_group": group, ".add_mutually_exclusive_group": group, ".parse_args": parse, ".error": error, ".print_help": nothing, ".print_usage": nothing, ".set_defaults": set_defaults, ".parse_known_args": known}
        return hooks

    def default(self, I, o, st):
        """a default given as text is converted like a typed value"""
        v, t = o["default"], o["type"]
        if self.free and v is FALSE and o["action"] == "store_true" and o["dest"] in I.FREE_FLAGS:  # how much is printed or shown is not fixed
            return T.boolatom(fn("b:" + o["dest"], raw=True))
        if isinstance(v, E) and T.is_str_const(v) and isinstance(t, Ext) and t.name.split(".")[-1] in ("int", "float"):
            s = T.str_const(v)
            return num(int(s)) if t.name.endswith("int") else T.num(T.Fraction(s)) if hasattr(T, "Fraction") else num(float(s))
        return v

    def mine(self, v, st):
        return isinstance(v, Ref) and isinstance(st.heap[v.id], Ob) and st.heap[v.id].cls == "ext:parser"
