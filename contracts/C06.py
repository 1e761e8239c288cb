"""OFF files: header length in bytes, record layout per version, placement of models and records, modelled pulses"""
import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of
from loader import Loader
from harness import Harness

F = "mass/off/off.py:"
LOAD = Loader()
NPREAL = {}
I, R = z3.IntSort(), z3.RealSort()
START = [("recordSamples", 4), ("recordPreSamples", 4), ("framecount", 8), ("unixnano", 8), ("pretriggerMean", 4)]


def module():
    m = LOAD.load("mass.off.off")
    NPREAL.setdefault("np", m.np)
    return m


def width(t): return rnp.dtype(getattr(t, "_np_", t)).itemsize
def code(t): return rnp.dtype(getattr(t, "_np_", t)).str[1:]


class Layout(Ghost):
    """contract of np.dtype(list): packed fields in the order of the list"""
    def __init__(self, l):
        self.fields, pos = {}, num(0)
        for d in l:
            nm, t, shp = d[0], d[1], d[2] if len(d) > 2 else None
            if isinstance(shp, tuple):
                assert len(shp) == 1
                shp = shp[0]
            self.fields[nm] = (pos, t, shp)
            pos = pos + num(width(t)) * (1 if shp is None else shp)
        self.itemsize = pos


class Np:
    def __init__(self, c, **over): self.c, self.over = c, over

    def __getattr__(self, k):
        if k in self.__dict__.get("over", {}):
            return self.over[k]
        return getattr(NPREAL["np"], k)


def expected(version, n, descriptive):
    """layout by the format description"""
    l = list(START)
    if version == "0.3.0":
        l.append(("pretriggerDelta", 4))
    l.append(("residualStdDev", 4))
    pos, out = num(0), {}
    for nm, w in l:
        out[nm] = pos
        pos = pos + w
    return out, pos, pos + 4 * n


def h_dtype(c):
    m = module()
    m.np = Np(c, dtype=Layout)
    n = c.int("nBasis", lo=3)
    v = "0.1.0" if c.choose("v1") else "0.2.0" if c.choose("v2") else "0.3.0"
    if c.choose("unknown version"):
        ok = False
        try:
            m.recordDtype("0.4.0" if c.choose("newer") else "0.0.1", n)
        except Exception:
            ok = True
        c.ensure("an unknown version is refused", sbool(ok))
        return
    des = c.choose("named coefficients")
    d = m.recordDtype(v, n, descriptive_coefs_names=des) if not des or c.choose("explicit") else m.recordDtype(v, n)
    exp, cpos, size = expected(v, n, des)
    c.ensure("record size", d.itemsize == size)
    ok = [num(d.fields[k][0]) == p if k in d.fields else False for k, p in exp.items()]
    c.ensure("fields at their offsets", And(*ok))
    types = {"recordSamples": "i4", "recordPreSamples": "i4", "framecount": "i8", "unixnano": "i8"}
    c.ensure("field types", sbool(all(k in d.fields and code(d.fields[k][1]) == types.get(k, "f4") and d.fields[k][2] is None for k in exp)))
    if des:
        names = ["pulseMean", "derivativeLike", "filtValue"]
        c.ensure("first three coefficients by name", And(*[And(num(d.fields[k][0]) == cpos + 4 * i, sbool(code(d.fields[k][1]) == "f4" and d.fields[k][2] is None))
                                                           if k in d.fields else False for i, k in enumerate(names)]))
        if "extraCoefs" in d.fields:
            p, t, s = d.fields["extraCoefs"]
            c.ensure("extra coefficients", And(p == cpos + 12, num(s) == n - 3, sbool(code(t) == "f4")))
        else:
            c.ensure("no extra coefficients", n == 3)
        c.ensure("no other fields", sbool(set(d.fields) <= set(exp) | set(names) | {"extraCoefs"}))
    else:
        p, t, s = d.fields["coefs"]
        c.ensure("all coefficients together", And(p == cpos, num(s) == n, sbool(code(t) == "f4")))
        c.ensure("no other fields", sbool(set(d.fields) == set(exp) | {"coefs"}))


# ------------------------------------------------------------ header text
class Text(Ghost):
    """the text of lines [0, k): its characters and its bytes may differ in number"""
    def __init__(self, f, k): self.f, self.k = f, num(k)
    def encode(self, *a):
        if a and a[0] not in ("utf-8", "utf8"):
            raise Unsupported("encoding")
        return Raw(self.f.B(self.k))
    def _as_len_(self): return self.f.C(self.k)
    def slen(self): return self.f.C(self.k)
    def _joined_(self, sep): return self if sep == "" else Unsupported
    def __add__(self, o):
        ctx().ensure("lines are collected in order", o.k == self.k)
        return Text(self.f, self.k + 1)
    __iadd__ = __add__


class Raw(Ghost):
    def __init__(self, n): self.n = n
    def slen(self): return self.n


class Line(Ghost):
    def __init__(self, f, k, text=False): self.f, self.k, self.text = f, k, text
    def decode(self, enc="utf-8"): return Line(self.f, self.k, True)
    def slen(self): return ite(self.f.EOF(self.k), 0, self.f.C(self.k + 1) - self.f.C(self.k))

    def __eq__(self, o):
        if o == ("}\n" if self.text else b"}\n"):
            return self.f.END(self.k)
        if o in ("", b""):
            return self.f.EOF(self.k)
        raise Unsupported("line comparison")
    __hash__ = None
    def __ne__(self, o): return Not(self == o)

    def __radd__(self, o):
        ctx().ensure("lines are collected in order", And(sbool(o == [] or o == ""), self.k == 0))
        return Text(self.f, 1)


class File(Ghost):
    """an unknown text file: line k ends at character C(k+1), byte B(k+1); END marks lines equal to the end-of-JSON line"""
    def __init__(self, c):
        n = c.fname("file")
        fi = {k: z3.Function(f"{n}_{k}", I, I) for k in "CB"}
        fb = {k: z3.Function(f"{n}_{k}", I, z3.BoolSort()) for k in ("END", "EOF")}
        self.C, self.B = (lambda k: SNum(fi["C"](num(k).e))), (lambda k: SNum(fi["B"](num(k).e)))
        self.END, self.EOF = (lambda k: SBool(fb["END"](num(k).e))), (lambda k: SBool(fb["EOF"](num(k).e)))
        c.assume(And(self.C(0) == 0, self.B(0) == 0))
        c.assume(forall(lambda k: Implies(k >= 0, And(Not(And(self.END(k), self.EOF(k))), self.B(k + 1) >= self.B(k), self.C(k + 1) >= self.C(k),
                                                      Implies(self.END(k), And(self.C(k + 1) == self.C(k) + 2, self.B(k + 1) == self.B(k) + 2)),
                                                      Implies(Not(self.EOF(k)), self.C(k + 1) > self.C(k)))), pats=lambda k: self.END(k)))
        self.pos = num(0)

    def readline(self):
        k = self.pos
        self.pos = k + 1
        return Line(self, k)


def read_spec(f):
    def inv(e):
        ls = e.get("lines")
        k = f().pos
        cnt = ls.k if isinstance(ls, Text) else num(0)
        yield And(cnt == k, k >= 0)
        yield forall(lambda j: Implies(And(j >= 0, j < k), And(Not(f().END(j)), Not(f().EOF(j)))), pats=lambda j: f().END(j))
    return inv


CUR = {}


def h_read(c):
    m = module()
    f = File(c)
    CUR["f"] = f
    try:
        t = m.readJsonString(f)
    except Exception as e:
        if type(e) is not Exception:
            raise
        c.ensure("refused only at the end of the file", f.EOF(f.pos - 1))
        c.ensure("no end-of-JSON line before it", forall(lambda j: Implies(And(j >= 0, j < f.pos), Not(f.END(j))), pats=lambda j: f.END(j)))
        return
    c.ensure("the text up to and including the end-of-JSON line", And(t.k == f.pos, f.pos >= 1, f.END(f.pos - 1)))
    c.ensure("the first such line", forall(lambda j: Implies(And(j >= 0, j < f.pos - 1), And(Not(f.END(j)), Not(f.EOF(j)))), pats=lambda j: f.END(j)))


# ------------------------------------------------------------ mapping of the file
class Map(Ghost):
    """contract of np.memmap: elements packed from offset; content is a function of byte offset and type"""
    def __init__(self, c, fn, dtype=None, mode="r+", offset=0, shape=None):
        c.ensure("mapped read-only", sbool(mode == "r"))
        self.c, self.dtype, self.offset, self.shape, self.fn = c, dtype, num(offset), shape, fn

    def slen(self): return self.shape[0]

    def view(self, dt):
        r = Map(self.c, self.fn, dt, "r", self.offset, self.shape)
        self.c.ensure("a view has records of the same size", dt.itemsize == self.dtype.itemsize)
        return r

    def __getitem__(self, i):
        return Rec(self, num(i))


class Rec(Ghost):
    def __init__(self, mp, i): self.mp, self.i = mp, i

    def __getitem__(self, nm):
        pos, t, n = self.mp.dtype.fields[nm]
        at = self.mp.offset + self.i * self.mp.dtype.itemsize + pos
        if n is None:
            return content(t, at)
        w = width(t)
        return lazy((n,), lambda j: content(t, at + w * num(j)), dt_of(t))


def content(t, at):
    k = code(t)
    f = z3.Function("content_" + k, I, I if k[0] in "iu" else R)
    return SNum(f(num(at).e))


def mmap(c):
    def f(filename, dtype=None, mode="r+", offset=0, shape=None):
        if isinstance(dtype, Layout):
            return Map(c, filename, dtype, mode, offset, shape)
        c.ensure("mapped read-only", sbool(mode == "r"))
        w, (r, q) = width(dtype), shape
        off = num(offset)
        return lazy((r, q), lambda i, j: content(dtype, off + w * (num(i) * q + num(j))), dt_of(dtype))
    return f


class Tok(Ghost):
    def __init__(self, v): self.v = v
    def _as_int_(self): return num(self.v)
    def _as_float_(self): return sfloat(self.v)


class B64(Ghost):
    def __init__(self, nm): self.nm = nm
    def encode(self, *a): return self


class Bytes(Ghost):
    def __init__(self, nm): self.nm = nm


class FileCM(Ghost):
    """the opened file; positioned reads of the end-of-header check"""
    def __init__(self, f): self.f = f
    def __enter__(self): return self.f
    def __exit__(self, *a): return False


class Positioned(File):
    def seek(self, p, whence=0): self.at = num(p)

    def readline(self):
        if not hasattr(self, "at"):
            return File.readline(self)
        return Probe(self, self.at)


class Probe(Ghost):
    """a line read from byte offset `at` on"""
    def __init__(self, f, at): self.f, self.at = f, at
    def decode(self, *a): return self
    def __eq__(self, o): return self.at == self.f.B(self.f.hdr) - 2      # where the end-of-JSON line of the header starts
    __hash__ = None


def opened(c, m, version, mk=None):
    """run the constructor over an unknown file; -> (object, values)"""
    n = c.int("nBasis", lo=3)
    rows, cols = n, c.int("nSamples", lo=1)
    g = dict(n=n, ns=cols, frame=c.real("frame"), version=version)
    c.assume(g["frame"] > 0)
    f = Positioned(c)
    g["f"] = f
    hdr = c.int("header_lines", lo=1)
    f.hdr = hdr
    size = c.int("file_size")
    g["size"] = size
    c.assume(f.B(hdr) >= 2)
    if c.choose("plain ASCII header"):
        c.assume(f.B(hdr) == f.C(hdr))
    else:
        c.assume(f.B(hdr) >= f.C(hdr))
    b64 = version == "0.1.0"
    P = {"Rows": Tok(rows), "Cols": Tok(cols)}
    B = {"Rows": Tok(cols), "Cols": Tok(rows)}
    if b64:
        P["RowMajorFloat64ValuesBase64"], B["RowMajorFloat64ValuesBase64"] = B64("proj"), B64("basis")
    header = {"FileFormat": "OFF", "FileFormatVersion": version, "FramePeriodSeconds": Tok(g["frame"]), "NumberOfBases": n,
              "ModelInfo": {"Projectors": P, "Basis": B}}
    bad = None
    if mk == "bad":
        bad = "format" if c.choose("not OFF") else "rows" if c.choose("basis rows") else "cols" if c.choose("basis cols") else "count"
        o = c.int("wrong", lo=1)
        if bad == "format":
            header["FileFormat"] = "LJH"
        elif bad == "rows":
            c.assume(Not(o == cols))
            B["Rows"] = Tok(o)
        elif bad == "cols":
            c.assume(Not(o == rows))
            B["Cols"] = Tok(o)
        else:
            c.assume(Not(o == n))
            P["Rows"], B["Cols"] = Tok(o), Tok(o)
    g["after"] = f.B(hdr) + (0 if b64 else 16 * rows * cols)

    def frombuffer(data, dtype=None):
        fl = z3.Function("b64_" + data.nm, I, R)
        k = rows * cols
        return lazy((k,), lambda i: SNum(fl(num(i).e)), dt_of(dtype))

    class Json:
        @staticmethod
        def loads(s):
            c.ensure("the header text is parsed", And(s.k == hdr))
            return header

    class Os:
        class path:
            @staticmethod
            def getsize(fn):
                c.ensure("size of this file", sbool(fn == "x.off"))
                return size
    m.np = Np(c, dtype=Layout, memmap=mmap(c), frombuffer=frombuffer)
    m.json, m.os = Json, Os
    m.open = lambda fn, mode="r": (c.ensure("the file is only read", sbool(mode == "rb" and fn == "x.off")), FileCM(f))[1]
    m.decodebytes = lambda b: Bytes(b.nm)
    m.readJsonString = lambda fh: Text(f, hdr)
    c.assume(size >= g["after"])
    g["bad"] = bad
    try:
        return m.OffFile("x.off"), g
    except Exception as e:
        if bad is None or isinstance(e, (Unsupported, SpecMismatch)):
            raise
        return None, g


def version(c): return "0.1.0" if c.choose("v1") else "0.2.0" if c.choose("v2") else "0.3.0"


def h_open(c):
    m = module()
    o, g = opened(c, m, version(c))
    n, ns = g["n"], g["ns"]
    # the complete records
    _, _, size = expected(g["version"], n, True)
    nr = num(o.nRecords)
    c.ensure("record count: complete records only", And(nr >= 0, g["after"] + nr * size <= g["size"], g["size"] < g["after"] + (nr + 1) * size))
    c.ensure("one mapped element per record", And(num(o._mmap.shape[0]) == nr, num(o.shape[0]) == nr, num(lenof(o)) == nr))
    i, j = c.int("i"), c.int("j")
    c.assume(And(i >= 0, i < n, j >= 0, j < ns))
    if g["version"] == "0.1.0":
        e = lambda nm, k: SNum(z3.Function("b64_" + nm, I, R)(num(k).e))
        p, b = e("proj", i * ns + j), e("basis", j * n + i)
    else:
        at = g["f"].B(g["f"].hdr)
        p, b = content(rnp.float64, at + 8 * (i * ns + j)), content(rnp.float64, at + 8 * n * ns + 8 * (j * n + i))
    c.ensure("projectors", And(num(o.projectors.shape[0]) == n, num(o.projectors.shape[1]) == ns, o.projectors.at(i, j) == p))
    c.ensure("basis", And(num(o.basis.shape[0]) == ns, num(o.basis.shape[1]) == n, o.basis.at(j, i) == b))
    # records
    k = c.int("k")
    c.assume(And(k >= 0, k < nr))
    exp, cpos, size = expected(g["version"], n, True)
    at = g["after"] + k * size
    rec = o[k]
    for nm, pos in exp.items():
        t = rnp.int32 if nm.startswith("record") else rnp.int64 if nm in ("framecount", "unixnano") else rnp.float32
        c.ensure("every field is read from its own place", rec[nm] == content(t, at + pos))
    for q, nm in enumerate(["pulseMean", "derivativeLike", "filtValue"]):
        c.ensure("every field is read from its own place", rec[nm] == content(rnp.float32, at + cpos + 4 * q))
    # all coefficients as one array: the same numbers
    l = c.int("l")
    c.assume(And(l >= 0, l < n))
    co = o._mmap_with_coefs[k]["coefs"]
    c.ensure("the coefficient array", And(num(co.shape[0]) == n, co.at(l) == content(rnp.float32, at + cpos + 4 * l)))
    if "extraCoefs" in o.dtype.fields:
        ec = rec["extraCoefs"]
        c.assume(l < n - 3)
        c.ensure("the extra coefficients are the rest", And(num(ec.shape[0]) == n - 3, ec.at(l) == co.at(l + 3)))
    c.cover("opened")


def lenof(o): return o.__len__()


def h_pulse(c):
    m = module()
    o, g = opened(c, m, version(c))
    n, ns = g["n"], g["ns"]
    k = c.int("k")
    c.assume(And(k >= 0, k < num(o.nRecords)))
    exp, cpos, size = expected(g["version"], n, True)
    at = g["after"] + k * size
    both = c.choose("recordXY")
    if both:
        x, y = o.recordXY(k)
    else:
        x, y = o.sampleTimes(k), o.modeledPulse(k)
    t = c.int("t")
    c.assume(And(t >= 0, t < ns))
    tot = Sum(lambda j: o.basis.at(t, j) * content(rnp.float32, at + cpos + 4 * j), 0, n)
    c.ensure("modelled pulse: basis times all coefficients", And(num(y.shape[0]) == ns, y.at(t) == tot))
    rs, pre = content(rnp.int32, at), content(rnp.int32, at + 4)
    c.assume(And(pre >= 0, rs >= pre, rs >= 1))
    s = c.int("s")
    c.assume(And(s >= 0, s < rs))
    c.ensure("one time per sample", num(x.shape[0]) == rs)
    c.ensure("times are spaced by the frame period, zero at the trigger sample", x.at(s) == (s - pre) * g["frame"])


def h_refuse(c):
    m = module()
    o, g = opened(c, m, version(c), "bad")
    c.ensure("a file whose description is inconsistent is refused", sbool(o is None))


def h_grow(c):
    m = module()
    o, g = opened(c, m, version(c))
    before = num(o.nRecords)
    exp, cpos, size = expected(g["version"], g["n"], True)
    new = c.int("new_size")
    c.assume(new >= g["size"])

    class Os:
        class path:
            getsize = staticmethod(lambda fn: new)
    m.os = Os
    o._updateMmap()
    nr = num(o.nRecords)
    c.ensure("complete records of the grown file", And(g["after"] + nr * size <= new, new < g["after"] + (nr + 1) * size))
    c.ensure("never fewer", nr >= before)
    c.ensure("one mapped element per record", And(num(o._mmap.shape[0]) == nr, num(o.shape[0]) == nr))
    k = c.int("k")
    c.assume(And(k >= 0, k < nr))
    c.ensure("records keep their place", o[k]["filtValue"] == content(rnp.float32, g["after"] + k * size + cpos + 8))


def havoc_pos(c, e):
    """the loop reads on: how far is forgotten (the invariant says what is known)"""
    CUR["f"].pos = c.int("pos", lo=0)


def mk_lines(c, name):
    f = CUR["f"]
    return Text(f, c.int("collected", lo=0))


HARNESSES = [
    Harness("record_layout", h_dtype, [F + "recordDtype"]),
    Harness("header_text", h_read, [F + "readJsonString"],
            {("readJsonString", 0): LoopSpec(read_spec(lambda: CUR["f"]), types={"lines": mk_lines, "line": lambda c, e: None}, havoc=havoc_pos,
                                             handles=("f", "fp", "fh"))}),
    Harness("open", h_open, [F + "OffFile." + k for k in ("__init__", "validateHeader", "_updateMmap", "_decodeModelInfo", "_decodeModelInfoBase64",
            "_decodeModelInfoMmap", "__getitem__", "__len__", "_mmap_with_coefs")]),
    Harness("modelled_pulse", h_pulse, [F + "OffFile." + k for k in ("sampleTimes", "modeledPulse", "recordXY")]),
    Harness("refusals", h_refuse, [F + "OffFile.validateHeader", F + "OffFile._decodeModelInfoBase64", F + "OffFile._decodeModelInfoMmap"]),
    Harness("growth", h_grow, [F + "OffFile._updateMmap"]),
]
