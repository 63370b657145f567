"""an abstract file system: what the tools write is kept as symbolic arrays and headers, and can be read back by the next tool"""
from .common import *
from sa.interp import Meth


class FS:
    def __init__(self):
        self.files = {}  # name -> list of (array or None, header dict)
        self.text = {}  # name -> value (columns, dictionary, ...)
        self.writes = []
        self.keep = {}
        self.updating = {}

    # ------------------------------------------------ states
    def header(self, I, st, ent):
        return I.alloc(st, Dct({string(k).key: (string(k), v) for k, v in ent.items()}, None, frozenset(), "header"))

    def name(self, v, I, st):
        t = I.term(v, st)
        n = T.str_const(t) if T.is_str_const(t) else None
        if n is None:
            raise Abort("file name is not determined: %s" % show(I.term(v, st)))
        return n

    def snapshot(self, I, st, hdu):
        o = st.heap[hdu.id]
        h, d = o.attrs["header"], o.attrs["data"]
        ent = {k: v for k, v in st.heap[h.id].ent.items() if v[1] is not ABSENT}
        arr = st.heap[d.id] if isinstance(d, Ref) else None
        if isinstance(arr, Arr):
            if arr.axes is None:
                raise Abort("dimensions of the written data are not determined")
            self.sized(arr, ent)
        return arr, ent

    def sized(self, arr, ent):
        """the cards which astropy keeps in step with the data"""
        fix = {"NAXIS": num(len(arr.axes))}
        for i, a in enumerate(reversed(arr.axes)):
            fix["NAXIS%d" % (i + 1)] = a.L if (a.label or a.parts) else ONE
        for j in range(len(arr.axes) + 1, 10):
            ent.pop(string("NAXIS%d" % j).key, None)
        for k, v in fix.items():
            ent[string(k).key] = (string(k), v)

    def load(self, I, st, n, item=None):
        if n not in self.files:
            if I.trystack:
                I.do_raise(st, "FileNotFoundError", None)
                return None
            raise Missing("the file %s does not exist; there is %s" % (n, ", ".join(sorted(self.files))))
        out = []
        for arr, ent in self.files[n]:
            h = I.alloc(st, Dct(dict(ent), None, frozenset(), "header"))
            d = I.alloc(st, Arr(arr.axes, arr.expr, arr.dtype)) if arr is not None else NONE
            out.append(I.alloc(st, Ob("hdu", {"header": h, "data": d})))
        return out

    # ------------------------------------------------ hooks
    def hooks(self):
        F = "astropy.io.fits."

        def hdu(I, args, kw, st, node):
            a = dict(zip(("data", "header"), args))
            a.update(kw)
            h = a.get("header", NONE)
            kind = lambda x: type(st.heap[x.id]) if isinstance(x, Ref) else None
            if kind(h) is Arr or kind(a.get("data", NONE)) is Dct:
                I.do_raise(st, "TypeError", node)  # data and header exchanged
                return BOTTOM
            e = dict(st.heap[h.id].ent) if isinstance(h, Ref) else {}
            d = st.heap[a["data"].id] if isinstance(a.get("data"), Ref) else None
            if isinstance(d, Arr) and d.axes is not None:
                self.sized(d, e)
            return I.alloc(st, Ob("hdu", {"data": a.get("data", NONE), "header": I.alloc(st, Dct(e, None, frozenset(), "header"))}))

        def lst(I, args, kw, st, node):
            return I.alloc(st, Lst(list(I.seq(args[0], st)) if hasattr(I, "seq") else st.heap[args[0].id].items)) if args else I.alloc(st, Lst([]))

        def opn(I, args, kw, st, node):
            n = self.name(args[0], I, st)
            l = self.load(I, st, n)
            if l is None:
                return BOTTOM
            mode = args[1] if len(args) > 1 else kw.get("mode", string("readonly"))
            l = I.alloc(st, Lst(l))
            if T.str_const(I.term(mode, st)) in ("update", "append"):
                self.updating[l.id] = n
            else:
                self.reads.append(n)
            return l

        def close(I, args, kw, st, node):
            l = args[0]
            if isinstance(l, Ref) and l.id in self.updating:
                self.put(I, st, string(self.updating[l.id]), [self.snapshot(I, st, h) for h in st.heap[l.id].items], {"overwrite": TRUE}, node)
                return NONE
            return method("close")(I, args, kw, st, node)

        def tofile(I, args, kw, st, node):
            o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
            if not isinstance(o, Dct) or o.kind != "header":
                return NotImplemented
            ent = {k: v for k, v in o.ent.items() if v[1] is not ABSENT}
            self.put(I, st, args[1] if len(args) > 1 else kw["fileobj"], [(None, ent)], kw, node)
            return NONE

        def pick(I, args, kw, st):
            k = args[1] if len(args) > 1 else kw.get("ext", ZERO)
            k = const_val(k) if isinstance(k, E) else None
            self.reads.append(self.name(args[0], I, st))
            l = self.load(I, st, self.reads[-1])
            return st.heap[l[int(k or 0)].id].attrs if l is not None else None

        def getdata(I, args, kw, st, node):
            a = pick(I, args, kw, st)
            if a is None:
                return BOTTOM
            return Tup([a["data"], a["header"]]) if kw.get("header") is TRUE else a["data"]

        def getheader(I, args, kw, st, node):
            a = pick(I, args, kw, st)
            return BOTTOM if a is None else a["header"]

        def writeto(I, args, kw, st, node):
            o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
            if isinstance(o, Ob) and o.cls == "hdu":
                hs = [args[0]]
            elif isinstance(o, Lst):
                hs = list(o.items)
            else:
                return NotImplemented
            fn_ = args[1] if len(args) > 1 else kw.get("fileobj", kw.get("name"))
            self.put(I, st, fn_, [self.snapshot(I, st, h) for h in hs], kw, node)
            return NONE

        def pfwrite(I, args, kw, st, node):
            a = dict(zip(("filename", "data", "header"), args))
            a.update(kw)
            h = hdu(I, [a["data"], a.get("header", NONE)], {}, st, node)
            if h is BOTTOM:
                return BOTTOM
            self.put(I, st, a["filename"], [self.snapshot(I, st, h)], kw, node)
            return NONE

        def method(nm):
            def h(I, args, kw, st, node):
                o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
                if isinstance(o, Ob) and o.cls in ("hdu", "file") or isinstance(o, Lst):
                    return NONE
                return NotImplemented
            return h

        def hcopy(I, args, kw, st, node):
            o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
            if not isinstance(o, Ob) or o.cls != "hdu":
                return NotImplemented
            d = o.attrs["data"]
            if isinstance(d, Ref):
                x = st.heap[d.id]
                d = I.alloc(st, Arr(x.axes, x.expr, x.dtype))
            return I.alloc(st, Ob("hdu", {"data": d, "header": I.alloc(st, Dct(dict(st.heap[o.attrs["header"].id].ent), None, frozenset(), "header"))}))

        def lappend(I, args, kw, st, node):
            return NotImplemented

        def exists(I, args, kw, st, node):
            return TRUE

        def loadtxt(I, args, kw, st, node):
            if args[0] is NONE:
                I.do_raise(st, "TypeError", node)
                return BOTTOM
            n = self.name(args[0], I, st)
            self.reads.append(n)
            if n not in self.text:
                raise Missing("the file %s does not exist; there is %s" % (n, ", ".join(sorted(self.text))))
            un = kw.get("unpack") is TRUE
            c = self.text[n]
            if c[0] == "array":
                r = I.alloc(st, Arr(c[1].axes, c[1].expr, c[1].dtype))
                if un and len(c[1].axes) == 2:
                    return I.call(Ext("numpy.transpose"), [r], {}, st, node)
                return r
            return c[1]

        def savetxt(I, args, kw, st, node):
            n = self.name(args[0], I, st)
            from sa.npmodel import np_array
            axes, e = I.num(args[1], st)
            if axes is None:
                raise Abort("the saved table is not an array")
            self.writes.append((n, st.guard, node))
            self.text[n] = ("array", Arr(tuple(axes), e))
            return NONE

        def fopen(I, args, kw, st, node):
            a = dict(zip(("file", "mode"), args))
            a.update(kw)
            n = self.name(a["file"], I, st)
            m = T.str_const(a["mode"]) if "mode" in a else "r"
            if "w" in m or "x" in m:
                self.writes.append((n, st.guard, node))
                self.lines[n] = []
            elif "a" in m:
                self.writes.append((n, st.guard, node))
                self.lines.setdefault(n, [])
            elif "+" in m and n in self.files:
                pass  # a file to be padded to its final size
            else:
                self.reads.append(n)
                if n in self.source:
                    return I.alloc(st, Lst([string(x) for x in self.source[n]]))
                if n not in self.lines and n not in self.json:
                    raise Missing("the file %s does not exist; there is %s" % (n, ", ".join(sorted(set(self.lines) | set(self.json)))))
            return I.alloc(st, Ob("file", {"name": string(n)}))

        def fname(v, st):
            o = st.heap[v.id] if isinstance(v, Ref) else None
            return T.str_const(o.attrs["name"]) if isinstance(o, Ob) and o.cls == "file" else None

        def fwrite(I, args, kw, st, node):
            n = fname(args[0], st)
            if n is None:
                return NotImplemented
            if n in self.files:
                return NONE
            t = I.term(args[1], st)
            if t.key in self.jtext and not self.lines[n]:
                self.json[n] = self.jtext[t.key]
            self.lines[n].append((t, st.guard))
            return NONE

        def readlines(I, args, kw, st, node):
            o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
            return I.alloc(st, Lst(o.items)) if isinstance(o, Lst) else NotImplemented

        def dumps(I, args, kw, st, node):
            t = T.strcat([fn("json", string(str(len(self.jtext))))])
            self.jtext[t.key] = keep(I, args[0], st)
            return t

        def read(I, args, kw, st, node):
            n = fname(args[0], st)
            o = st.heap[args[0].id] if isinstance(args[0], Ref) else None
            if isinstance(o, Lst):
                return T.strcat(list(o.items))
            if n is None or n not in self.json:
                return NotImplemented
            t = T.strcat([fn("json", string("of " + n))])
            self.jtext[t.key] = self.json[n]
            return t

        def loads(I, args, kw, st, node):
            t = I.term(args[0], st)
            return give(I, self.jtext[t.key], st) if t.key in self.jtext else NotImplemented

        def writelines(I, args, kw, st, node):
            n = fname(args[0], st)
            q = I.iterate(args[1], st) if n is not None else None
            if q is None or q[0] != "known":
                return NotImplemented
            for x in q[1]:
                self.lines[n].append((I.term(x, st), st.guard))
            return NONE

        def keep(I, v, st):
            o = st.heap[v.id] if isinstance(v, Ref) else v
            if isinstance(o, Dct):
                return ("d", [(k, keep(I, x, st)) for k, x in o.ent.values() if x is not ABSENT])
            if isinstance(o, Lst) or isinstance(o, Tup):
                return ("l", [keep(I, x, st) for x in o.items])
            if isinstance(o, Arr):
                return ("a", o)
            if isinstance(o, Phi):
                return ("p", o.c, keep(I, o.a, st), keep(I, o.b, st))
            return ("e", I.term(v, st))

        def give(I, k, st):
            if k[0] == "d":
                return I.alloc(st, Dct({x.key: (x, give(I, v, st)) for x, v in k[1]}))
            if k[0] == "l":
                return I.alloc(st, Lst([give(I, x, st) for x in k[1]]))
            if k[0] == "p":
                return Phi(k[1], give(I, k[2], st), give(I, k[3], st))
            return I.alloc(st, Arr(k[1].axes, k[1].expr)) if k[0] == "a" else k[1]

        def jdump(I, args, kw, st, node):
            n = fname(args[1], st) if len(args) > 1 else fname(kw["fp"], st)
            if n is None:
                return NotImplemented
            self.json[n] = keep(I, args[0], st)
            return NONE

        def jload(I, args, kw, st, node):
            n = fname(args[0], st)
            if n is None:
                return NotImplemented
            if n not in self.json:
                raise Missing("the file %s is not JSON" % n)
            return give(I, self.json[n], st)
        self.reads = []
        self.source = {}  # text files given line by line
        self.lines, self.json, self.jtext = {}, {}, {}
        self.fragile = []
        d = {"builtins.open": fopen, ".write": fwrite, ".writelines": writelines, "json.dump": jdump, "json.dumps": dumps, "json.loads": loads, ".read": read, ".readlines": readlines, "json.load": jload,
             F + "PrimaryHDU": hdu, F + "ImageHDU": hdu, F + "HDUList": lst, ".copy": hcopy, F + "open": opn, F + "getdata": getdata, F + "getheader": getheader,
             F + "writeto": pfwrite, ".writeto": writeto, ".close": close, ".flush": close, ".seek": method("seek"), ".tofile": tofile, "os.path.exists": exists, "os.path.isfile": exists, "numpy.loadtxt": loadtxt, "numpy.savetxt": savetxt,
             F + "update": pfwrite}
        for k in list(d):
            if k.startswith(F):
                d["astropy.io.fits.hdu.hdulist." + k[len(F):]] = d[k]
        return d

    def put(self, I, st, fname, hdus, kw, node):
        n = self.name(fname, I, st)
        self.writes.append((n, st.guard, node))
        if kw.get("overwrite", FALSE) is not TRUE and node is not None:
            self.fragile.append(n)  # fails if the file exists
        self.files[n] = hdus


class Missing(Exception):
    pass


def cube_header(axes, extra=None):
    """header of a cube: axes is a list, in FITS order, of (ctype, label or None)"""
    e = {"SIMPLE": TRUE, "NAXIS": num(len(axes)), "BUNIT": string("Jy/beam"), "OBJECT": sym("h:OBJECT"), "BMAJ": sym("h:BMAJ")}
    for i, (c, l) in enumerate(axes):
        n = str(i + 1)
        e["NAXIS" + n] = length(l) if l else ONE
        e["CTYPE" + n] = string(c)
        for k in ("CRVAL", "CRPIX", "CDELT"):
            e[k + n] = sym("h:" + k + n)
        e["CUNIT" + n] = string({"FREQ": "Hz"}.get(c, "" if c == "STOKES" else "deg"))
    e.update(extra or {})
    return e


def cube(I, st, name, axes, real=True, perm=None):
    """symbolic data in numpy order for those axes (label None: length one)"""
    labs = [l for c, l in reversed(axes)]
    return I.alloc(st, Arr(tuple(ax(l) if l else Ax1() for l in labs), el(name, [lab(l) for l in (perm or ["f", "y", "x"]) if l in labs], real=real)))


def Ax1():
    from sa.interp import ONE_AX
    return ONE_AX
