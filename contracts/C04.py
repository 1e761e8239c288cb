"""LJH files: header parsing, sizes, record placement (byte offsets), 2.1 times, segments"""
import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of
from loader import Loader
from harness import Harness

F = "mass/core/files.py:"
LOAD = Loader()
I = z3.IntSort()


class Tok:
    """a header value: bytes whose int()/float() is the number written there"""

    def __init__(self, v): self.v = v
    def _as_int_(self): return num(self.v)
    def _as_float_(self): return sfloat(self.v)


class Stat:
    def __init__(self, size): self.st_size = size


class OS:
    def __init__(self, size): self.size = size
    def stat(self, fn): return Stat(self.size)

    @property
    def path(self):
        import os
        return os.path


def width(t):
    return rnp.dtype(getattr(t, "_np_", t)).itemsize


class MemMap:
    """contract of np.memmap over the file: element i of the structured type lies at offset + i*itemsize, its fields packed in
    order; a field value is what the file holds at that byte offset (uninterpreted per width and sign)"""

    def __init__(self, c, offset, n, dtype):
        self.c, self.offset, self.n = c, offset, n
        self.fields, pos = {}, num(0)
        for d in dtype:
            nm, t = d[0], d[1]
            shp = d[2] if len(d) > 2 else ()
            self.fields[nm] = (pos, t, shp)
            w = num(width(t))
            for s in shp:
                w = w * s
            pos = pos + w
        self.itemsize = pos

    def read(self, t, off):
        return SNum(z3.Function("file_" + rnp.dtype(getattr(t, "_np_", t)).str[1:], I, I)(num(off).e))

    def __getitem__(self, nm):
        pos, t, shp = self.fields[nm]
        w = width(t)
        off, sz = self.offset, self.itemsize
        if shp:
            return lazy((self.n, shp[0]), lambda i, j: self.read(t, off + num(i) * sz + pos + w * num(j)), dt_of(t))
        return lazy((self.n,), lambda i: self.read(t, off + num(i) * sz + pos), dt_of(t))


def patch(m, c, size):
    real = LOADNP["np"]

    class NP:
        def __getattr__(self, k):
            if k == "memmap":
                def f(filename, dtype=None, mode="r+", offset=0, shape=None):
                    c.ensure("the mapping is opened read-only", mode == "r")
                    c.ensure("one mapped element per record", isinstance(shape, tuple) and len(shape) == 1)
                    return MemMap(c, offset, shape[0], dtype)
                return f
            return getattr(real, k)
    m.np, m.os = NP(), OS(size)


LOADNP = {}


def setup(c, version=None, dastard=None, **present):
    m = LOAD.load("mass.core.files")
    LOADNP.setdefault("np", m.np)
    new = c.choose("version 2.2") if version is None else version
    hs, bs = c.int("header_size", lo=0), c.int("binary_size", lo=0)
    ns, pre, tb = c.int("nSamples", lo=1), c.int("pre", lo=0), c.real("timebase")
    c.assume(tb > 0)
    patch(m, c, hs + bs)
    h = {b"Timebase": Tok(tb), b"Total Samples": Tok(ns), b"Presamples": Tok(pre), b"Save File Format Version": b"2.2.0" if new else b"2.1.0"}
    ch = lambda nm: c.choose(nm) if present.get(nm) is None else present[nm]
    das = c.choose("dastard") if dastard is None else dastard
    h[b"Software Version"] = (b"DASTARD version 0.2.1" if c.choose("written by dastard") else b"MASS-generated LJH file, MASS version 0.8") if das \
        else b"MATTER Client 1.0.0"
    v = {"pre": pre, "ns": ns, "tb": tb, "hs": hs, "bs": bs, "new": new, "dastard": das, "off": 0, "nrows": 1}
    if ch("row number"):
        v["off"] = c.int("rownum", lo=0)
        h[b"Row number (from 0-31 inclusive)"] = Tok(v["off"])
    if ch("number of rows"):
        v["nrows"] = c.int("nrows")
        h[b"Number of rows"] = Tok(v["nrows"])
    v["div"] = ite(num(v["nrows"]) <= 0, 1, v["nrows"])
    src = ch("source")
    if src:
        aba = ch("abaco")
        h[b"Data source"] = b"Abaco" if aba else b"Lancero"
        if aba:
            v["off"], v["div"] = 0, 64
    if ch("divisions"):
        v["div"] = c.int("sdiv", lo=1)
        h[b"Subframe divisions"] = Tok(v["div"])
    if ch("offset"):
        v["off"] = c.int("soff")
        h[b"Subframe offset"] = Tok(v["off"])
    h[b"Timestamp offset (s)"] = Tok(c.real("toff"))
    v["psize"] = (16 if new else 6) + 2 * ns
    c.assume(v["psize"] <= 2 ** 24)      # larger records are refused by the default segment size
    cls = m.LJHFile2_2 if new else m.LJHFile2_1
    f = cls("dir/run_chan7.ljh", h, hs)
    return m, f, v


def h_header(c):
    m, f, v = setup(c)
    c.cover("opened")
    c.ensure("record length, period and channel are the header's", And(f.nSamples == v["ns"], f.timebase == v["tb"], num(f.channum) == 7))
    c.ensure("pretrigger count (3 more for writers other than DASTARD and MASS)", num(f.nPresamples) == v["pre"] + (0 if v["dastard"] else 3))
    c.ensure("subframe layout", And(num(f.subframe_divisions) == v["div"], num(f.subframe_offset) == v["off"]))
    n = num(f.nPulses)
    c.ensure("the record count is the number of complete records", And(n >= 0, n * v["psize"] <= v["bs"], v["bs"] < (n + 1) * v["psize"]))
    c.ensure("record size", And(f.pulse_size_bytes == v["psize"], num(f._mm.itemsize) == v["psize"]))
    c.ensure("records start right after the header", And(num(f._mm.offset) == v["hs"], num(f._mm.n) == n))
    k = c.int("k")
    c.assume(And(k >= 0, k < v["ns"]))
    c.ensure("sample times have zero at the trigger sample", f.sample_usec.at(k) == (k - num(f.nPresamples)) * v["tb"] * 1000000)


MIN = {"row number": False, "number of rows": False, "source": False, "abaco": False, "divisions": True, "offset": True}


def h_records(c):
    m, f, v = setup(c, dastard=True, **MIN)
    if c.choose("invert"):
        f.invert_data = True
    inv = bool(f.invert_data)
    c.assume(v["bs"] >= v["psize"])
    i, j = c.int("i"), c.int("j")
    c.assume(And(i >= 0, i < f.nPulses, j >= 0, j < v["ns"]))
    base = v["hs"] + i * v["psize"]
    rd = lambda t, o: SNum(z3.Function("file_" + t, I, I)(num(o).e))
    want = rd("u2", base + (16 if v["new"] else 6) + 2 * j)
    want = 65535 - want if inv else want
    for nm, g in (("read_trace", lambda: f.read_trace(i)), ("indexing", lambda: f[i])):
        r = g()
        c.ensure(nm + ": one record of the full length", len(r.shape) == 1 and num(r.shape[0]) == v["ns"])
        c.ensure(nm + ": samples are the stored ones", r.at(j) == want)
    a = f.alldata
    c.ensure("alldata: all records", And(num(a.shape[0]) == f.nPulses, num(a.shape[1]) == v["ns"]))
    c.ensure("alldata: samples are the stored ones", a.at(i, j) == want)
    lo = c.int("lo")
    c.assume(And(lo >= 0, lo <= i))
    s = f[lo:i + 1]
    c.ensure("slices: the records asked for", And(num(s.shape[0]) == i + 1 - lo, s.at(i - lo, j) == want))
    c.cover("data")
    if v["new"]:
        t1, t2 = rd("i8", base), rd("i8", base + 8)
        c.ensure("subframe count is the stored one", f.subframecount.at(i) == t1)
        c.ensure("time is the stored one", And(f.datatimes_raw.at(i) == t2, f.datatimes_float.at(i) * 1000000 == sfloat(t2)))
        sf, tm, tr = f.read_trace_with_timing(i)
        c.ensure("read_trace_with_timing: count, time and samples of that record", And(sf == t1, tm == t2, tr.at(j) == want))
    f.invert_data = not inv
    want2 = 65535 - want
    c.ensure("inversion can be switched at any time", And(f.read_trace(i).at(j) == want2, f.alldata.at(i, j) == want2))


def h_times21(c):
    m, f, v = setup(c, version=False, dastard=True, **MIN)
    i = c.int("i")
    c.assume(And(i >= 0, i < f.nPulses))
    base = v["hs"] + i * v["psize"]
    rd = lambda t, o: SNum(z3.Function("file_" + t, I, I)(num(o).e))
    us, ms = rd("u1", base), rd("u4", base + 2)
    c.assume(And(us >= 0, us < 256, ms >= 0, ms < 2 ** 32))
    ns = us * 4000 + ms * 1000000
    fr = f.subframecount.at(i)
    q = c.int("q")
    period = v["tb"] * 1000000000
    # frame number: 4 + the number of whole frame periods before the stored time (exclusive)
    c.assume(And(sfloat(q) * period <= sfloat(ns - 1), sfloat(ns - 1) < sfloat(q + 1) * period))
    c.ensure("subframe count: frames at the stored time", fr == (q + 4) * v["div"] + v["off"])
    tm = f.datatimes_float.at(i)
    if getattr(f, "frame_count", None) is not None:          # intermediate step for the solver
        c.ensure("frame number", f.frame_count.at(i) == q + 4)
        c.assume(f.frame_count.at(i) == q + 4)
    c.ensure("time: that subframe's time", tm * sfloat(v["div"]) == (sfloat(q + 4) * sfloat(v["div"]) + sfloat(v["off"])) * v["tb"])
    raw = f.datatimes_raw.at(i)
    c.ensure("raw time is the time in microseconds, rounded", Implies(tm >= 0, And(sfloat(raw) <= tm * 1000000 + 0.5, sfloat(raw) > tm * 1000000 - 0.5)))
    f2 = f.subframecount.at(i)
    c.ensure("reading again gives the same", f2 == fr)


def h_segments(c):
    m, f, v = setup(c, dastard=True, **MIN)
    seg = c.int("segmentsize") if c.choose("given") else None
    n = num(f.nPulses)
    size = seg if seg is not None else num(2 ** 24)
    try:
        f.set_segment_size() if seg is None else f.set_segment_size(seg)
    except ValueError:
        c.ensure("refused only when smaller than a record", size < v["psize"])
        return
    c.ensure("accepted only when a record fits", size >= v["psize"])
    p, s = num(f.pulses_per_seg), num(f.n_segments)
    c.ensure("at least one record per segment, within the size", And(p >= 1, p * v["psize"] <= size, f.segmentsize == p * v["psize"]))
    c.ensure("the segments reach the last record", s * p >= n)
    r = c.int("r")
    c.assume(And(r >= 0, r < n))
    k = r // p
    c.ensure("every record lies in one of the segments", And(k >= 0, k < s, k * p <= r, r < (k + 1) * p))
    c.ensure("no segment starts beyond the records", (s - 1) * p <= n)


# ---------------------------------------------------------------- read_ljh_header
class Line:
    def __init__(self, g, k): self.g, self.k = g, k
    def startswith(self, p):
        assert p == b"#End of Header"
        return self.g.end(self.k)
    def __eq__(self, o):
        assert o == b""
        return self.g.eof(self.k)
    __hash__ = None
    def contains(self, x): return self.g.colon(self.k)
    def split(self, sep, maxsplit):
        assert sep == b":" and maxsplit == 1
        return KeyTok(self.g, self.k), ValTok(self.g, self.k)


class KeyTok:
    def __init__(self, g, k): self.g, self.k = g, k
    def strip(self): return self
    def __ne__(self, o): return ctx().bool("notdummy")
    __hash__ = None


class ValTok(KeyTok):
    pass


class GDict:
    """the header dictionary: key id -> number of the line that holds its value"""

    def __init__(self):
        self.a = z3.K(I, z3.IntVal(-1))

    def contains(self, t): return SBool(z3.Select(self.a, t.g.key(t.k).e) >= 0)

    def __setitem__(self, k, v):
        ctx().ensure("a value is stored under the key of its own line", num(k.k) == num(v.k))
        self.a = z3.Store(self.a, k.g.key(k.k).e, num(v.k).e)

    def havoc(self, c): self.a = z3.Array(c.fname("hd"), I, I)


class Fp:
    def __init__(self, g): self.g, self.pos = g, num(0)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def readline(self):
        k = self.pos
        self.pos = self.pos + 1
        return Line(self.g, k)
    def tell(self): return SNum(self.g.OFF(num(self.pos).e))


class G:
    def __init__(self, c):
        for nm, s in (("END", z3.BoolSort()), ("EOF", z3.BoolSort()), ("COLON", z3.BoolSort()), ("KEY", I), ("OFF", I)):
            setattr(self, nm, z3.Function(c.fname(nm), I, s))
        self.LAST = z3.Function(c.fname("last"), I, I, I)
    def end(self, k): return SBool(self.END(num(k).e))
    def eof(self, k): return SBool(self.EOF(num(k).e))
    def colon(self, k): return SBool(self.COLON(num(k).e))
    def key(self, k): return SNum(self.KEY(num(k).e))
    def last(self, k, q): return SNum(self.LAST(num(k).e, num(q).e))


def h_parse(c):
    L = Loader()
    m = L.load("mass.core.files")
    g = G(c)
    E = c.int("end_line", lo=0, hi=255)
    c.assume(And(g.end(E), forall(lambda k: Implies(And(k >= 0, k < E), And(Not(g.end(k)), Not(g.eof(k)))), pats=lambda k: g.end(k))))
    c.axiom(forall(lambda q: g.last(0, q) == -1, pats=lambda q: g.last(0, q)))
    c.axiom(forall(lambda k, q: Implies(k >= 0, g.last(k + 1, q) == ite(And(g.colon(k), g.key(k) == q), k, g.last(k, q))), n=2,
                   pats=lambda k, q: g.last(k + 1, q)))
    fp = Fp(g)
    c.ghost = (g, fp, E)
    m.open = lambda fn, mode: fp

    class Coll:
        OrderedDict = GDict
    m.collections = Coll
    c.cover("pre")
    hd, hs = m.read_ljh_header("x_chan1.ljh")
    c.ensure("the binary data start after the first end-of-header line", hs == SNum(g.OFF((E + 1).e)))
    q = c.int("q")
    c.ensure("each key has the value of its last line in the header", SNum(z3.Select(hd.a, q.e)) == g.last(E, q))


def inv_parse(e):
    g, fp, E = ctx().ghost
    hd = e.header_dict
    return [("line-number", And(e.i >= 0, e.i <= E, fp.pos == e.i)),
            ("dict", forall(lambda q: SNum(z3.Select(hd.a, q.e)) == g.last(e.i, q), pats=lambda q: g.last(e.i, q)))]


def havoc_parse(c, e):
    g, fp, E = c.ghost
    e.header_dict.havoc(c)
    fp.pos = c.int("pos")


def h_open(c):
    """version dispatch, concrete version strings (bounded list), uninterpreted rest"""
    L = Loader(real_imports={"packaging", "packaging.version"})
    m = L.load("mass.core.files")
    vers = [(b"2.2.0", True), (b"2.2.1", True), (b"2.3.0", True), (b"2.10.0", True), (b"3.0.0", True), (b"2.1.0", False), (b"2.1.9", False), (b"2.0.0", False), (b"1.1.0", False)]
    k = 0
    while k < len(vers) - 1 and not c.choose("next version"):
        k += 1
    ver, new = vers[k]
    hd, hs = {b"Save File Format Version": ver}, c.int("hs")
    m.read_ljh_header = lambda fn: (hd, hs)
    got = []

    class R2:
        def __init__(self, *a): got.append((2, a))

    class R1:
        def __init__(self, *a): got.append((1, a))
    m.LJHFile2_2, m.LJHFile2_1 = R2, R1
    m.LJHFile.open("a_chan3.ljh")
    c.ensure("the reader of the file's version is used", len(got) == 1 and got[0][0] == (2 if new else 1))
    c.ensure("with the file's own header", got[0][1][0] == "a_chan3.ljh" and got[0][1][1] is hd and got[0][1][2] is hs)


HARNESSES = [
    Harness("header_fields", h_header, [F + "LJHFile._parse_header", F + "LJHFile.__init__", F + "LJHFile._open_mm", F + "LJHFile2_2.__init__", F + "LJHFile2_1.__init__"]),
    Harness("records", h_records, [F + "LJHFile.read_trace", F + "LJHFile.__getitem__", F + "LJHFile.alldata", F + "LJHFile.read_trace_with_timing",
                                   F + "LJHFile2_2.subframecount", F + "LJHFile2_2.datatimes_raw", F + "LJHFile2_2.datatimes_float"]),
    Harness("times_2_1", h_times21, [F + "LJHFile2_1._parse_times", F + "LJHFile2_1.subframecount", F + "LJHFile2_1.datatimes_float", F + "LJHFile2_1.datatimes_raw"]),
    Harness("segments", h_segments, [F + "LJHFile.set_segment_size"]),
    Harness("parse_header_lines", h_parse, [F + "read_ljh_header"], specs={("read_ljh_header", 0): LoopSpec(inv_parse, types={"line": lambda c, e: None, "a": lambda c, e: None, "b": lambda c, e: None}, havoc=havoc_parse, handles=("header_dict", "fp"))}),
    Harness("open", h_open, [F + "LJHFile.open"], bounded="nine version strings"),
]
