"""LJH copy / append / truncate / modify: a monitor on the output file checks every write against the record it must be"""
import numpy as rnp
import os as ros
import z3
from pyvc import *
from symnp import fresh, lazy, SArr
from loader import Loader
from harness import Harness
import C04

F = "mass/core/ljh_modify.py:"
LOAD = Loader(real_imports={"packaging", "packaging.version"})


class Chunk:
    """bytes with known little-endian content: a list of (width, value) or ('arr', width, SArr)"""

    def __init__(self, parts): self.parts = list(parts)
    def __add__(self, o): return Chunk(self.parts + o.parts)
    def tofile(self, f, sep="", format="%s"):
        assert sep == ""
        f.write(self)
    def tobytes(self): return self


class Struct:
    W = {"Q": 8, "q": 8, "I": 4, "i": 4, "H": 2, "h": 2, "B": 1}

    def pack(self, fmt, *vals):
        if fmt[0] != "<" or len(fmt) - 1 != len(vals) or any(x not in self.W for x in fmt[1:]):
            raise Unsupported("struct format " + fmt)
        return Chunk([(self.W[x], v) for x, v in zip(fmt[1:], vals)])


class Source:
    """an open LJHFile by its contract (C04): arrays of record contents"""

    def __init__(self, c, nm, new=True, n=None, ns=None):
        self.c, self.filename = c, nm
        self.nPulses = c.int("nPulses_" + nm[:3], lo=0) if n is None else n
        self.nSamples = c.int("nSamples", lo=1) if ns is None else ns
        self.data = fresh(c, "data", (self.nPulses, self.nSamples), rnp.uint16)
        self.sf, self.us = fresh(c, "sf", self.nPulses, rnp.int64), fresh(c, "us", self.nPulses, rnp.int64)
        self.hd = c.int("header_size", lo=1)
        self.new = new
        self.version_str = b"2.2.0" if new else b"2.1.0"
        self.raw = fresh(c, "rawtime", self.nPulses, rnp.int64)      # the stored time fields, whatever their layout
        self.subframe_divisions, self.subframe_offset, self.timebase, self.nPresamples = 1, 0, 1e-5, 3
        self.header_dict = {}

    header_size = property(lambda s: s.hd)
    alldata = property(lambda s: s.data)
    subframecount = property(lambda s: s.sf)
    datatimes_raw = property(lambda s: s.us)
    datatimes_float = property(lambda s: s.us / 1e6)
    pulse_size_bytes = property(lambda s: (16 if s.new else 6) + 2 * num(s.nSamples))
    binary_size = property(lambda s: s.bs)

    def __getitem__(self, i): return self.data[i]
    def read_trace(self, i): return self.data[i]
    def read_trace_with_timing(self, i): return self.sf[i], self.us[i], self.data[i]

    def set_segment_size(self, s=None): pass

    @property
    def _mm(self): return Rows(self)


class Rows:
    def __init__(self, s): self.s = s
    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, hi = k.start, k.stop
            self.s.c.ensure("one stored record is copied", num(hi) == num(lo) + 1)
            return RawRec(self.s, lo)
        if k == "data":
            return self.s.data
        raise Unsupported("stored field " + str(k))


class RawRec:
    """a copy of one stored record; ['data'] can be replaced"""

    def __init__(self, s, i): self.s, self.i, self.d = s, i, s.data[i]
    def copy(self): return RawRec(self.s, self.i)
    def __setitem__(self, k, v):
        if k != "data":
            raise Unsupported("field " + k)
        self.d = v
    def tofile(self, f, sep=""):
        f.write(Chunk([("raw", self.s.raw[self.i]), ("arr", 2, self.d)]))


class Header:
    pass


class Out:
    """the output file: counts complete records; want(r) gives the fields of record r"""

    def __init__(self, c, want, header=None):
        self.c, self.want, self.header, self.r, self.pending, self.hdr = c, want, header, num(0), [], 0

    def __enter__(self): return self
    def __exit__(self, *a): return False

    def write(self, x):
        c = self.c
        if self.header is not None and self.hdr == 0:
            c.ensure("the header comes first", x is self.header)
            self.hdr = 1
            return
        if not isinstance(x, Chunk):
            raise Unsupported("write of " + type(x).__name__)
        self.pending += x.parts
        w = self.want(self.r)
        if len(self.pending) < len(w):
            return
        c.ensure("a record is written as count, time and samples", len(self.pending) == len(w) and [p[:-1] for p in self.pending] == [q[:-1] for q in w])
        for p, (q, nm) in zip(self.pending, [(q, ("count", "time", "samples")[k] if len(w) == 3 else ("stored time", "samples")[k]) for k, q in enumerate(w)]):
            if p[0] == "arr":
                j = c.int("sample")
                c.assume(And(j >= 0, j < q[2].shape[0]))
                c.ensure("all samples are written", num(p[2].shape[0]) == q[2].shape[0] if len(p[2].shape) == 1 else False)
                c.ensure("the samples written are the requested record's", p[2].at(j) == q[2].at(j))
            else:
                c.ensure(f"the {nm} written is the requested record's", num(p[-1]) == num(q[-1]))
        self.pending = []
        self.r = self.r + 1

    def seek(self, off): self.pos = num(off)
    def truncate(self, size=None):
        if size is not None:
            self.pos = num(size)
        self.cut = True


def trace_writer():
    """numpy arrays of 16-bit samples write themselves as their bytes"""
    def tofile(self, f, sep="", format="%s"):
        assert sep == ""
        f.write(Chunk([("arr", 2, self)]))
    SArr.tofile = tofile


class OS:
    def __init__(self, c, exists, same): self.path = self; self.e, self.s = exists, same
    def exists(self, f): return self.e
    def samefile(self, a, b): return self.s
    def abspath(self, a): return "/abs/" + str(a)
    realpath = normpath = abspath


def setup(c, src, dest=None, want=None, exists=False, same=False, header=None, mode=None):
    m = LOAD.load("mass.core.ljh_modify")
    trace_writer()
    out = Out(c, want, header)
    hdr = Header()

    class HFile:
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def read(self, k):
            c.ensure("exactly the header is copied", num(k) == src.hd)
            return header

    def opener(name, md="r"):
        if name == src.filename and md == "rb":
            return HFile()
        c.ensure("only the output file is opened for writing", name == "dest_chan1.ljh" and (mode is None or md in mode))
        c.opened = md
        return out
    m.open = opener
    m.struct = Struct()

    class LJH:
        @staticmethod
        def open(nm):
            return src if nm == src.filename else dest
    m.LJHFile = LJH
    m.os = OS(c, exists, same)
    real = NPS.setdefault("np", m.np)

    class NP:
        def __getattr__(self, k):
            if k == "array":
                return lambda x, *a, **kw: x.copy() if isinstance(x, RawRec) else real.array(x, *a, **kw)
            return getattr(real, k)
    m.np = NP()

    class Upd:
        def __init__(self, *a): pass
        def update(self, *a): pass
    m.InlineUpdater = Upd
    return m, out


NPS = {}


def rec_want(src, idx):
    """record r of the output must be record idx(r) of src, as 8 + 8 bytes and samples"""
    def want(r):
        i = idx(r)
        return [(8, src.sf[i]), (8, src.us[i]), ("arr", 2, src.data[i])]
    return want


def index_list(c, src):
    n = c.int("n_requested", lo=0)
    p = fresh(c, "pulses", n, rnp.int64)
    c.assume(forall(lambda k: Implies(And(k >= 0, k < n), And(p.at(k) >= 0, p.at(k) < src.nPulses)), pats=lambda k: p.at(k)))
    return n, p


def h_copy(c):
    src = Source(c, "src_chan1.ljh")
    n, p = index_list(c, src)
    exists, over = c.choose("destination exists"), c.choose("overwrite")
    same = exists and c.choose("destination is the source")
    hdr = Header()
    m, out = setup(c, src, want=rec_want(src, lambda r: p[r]), exists=exists, same=same, header=hdr, mode=("wb",))
    hdict = {}

    def mk(d):
        hdict.update(d)
        return hdr
    m.make_ljh_header = mk
    c.opened = None
    c.ghost = out
    try:
        m.ljh_copy_traces("src_chan1.ljh", "dest_chan1.ljh", p, **({"overwrite": True} if over else {}))
    except (OSError, ValueError):
        c.ensure("refused only when the destination exists unasked, or is the source", exists and (not over or same))
        c.ensure("refused before anything is opened for writing", c.opened is None)
        return
    c.cover("copied")
    c.ensure("an existing file is only overwritten when asked", over or not exists)
    c.ensure("the source is never the destination", not same)
    c.ensure("all requested records are written, nothing is left over", And(out.r == n, not out.pending))
    c.ensure("the header describes the source's layout", And(hdict["nSamples"] == src.nSamples, hdict["nPresamples"] == 3, hdict["timebase"] == 1e-5,
                                                            hdict["version_str"] == "2.2.0"))


def inv_out(e):
    out = ctx().ghost
    return [("records-written", out.r == e._k), ("nothing-pending", not out.pending)]


def havoc_out(c, e):
    c.ghost.r = c.int("written")
    c.ghost.pending = []


def h_append(c):
    src = Source(c, "src_chan1.ljh")
    dest = Source(c, "dest_chan1.ljh", ns=src.nSamples)
    all_ = c.choose("all records")
    if all_:
        n, p = src.nPulses, None
    else:
        n, p = index_list(c, src)
    m, out = setup(c, src, dest, rec_want(src, (lambda r: r) if all_ else (lambda r: p[r])), exists=True, mode=("ab", "r+b"))
    c.ghost = out
    m.ljh_append_traces("src_chan1.ljh", "dest_chan1.ljh") if all_ else m.ljh_append_traces("src_chan1.ljh", "dest_chan1.ljh", p)
    c.ensure("all requested records are written, nothing is left over", And(out.r == n, not out.pending))
    c.ensure("they start right behind the last complete record", getattr(out, "cut", False) and num(out.pos) == dest.hd + dest.nPulses * dest.pulse_size_bytes)


def h_truncate(c):
    new = c.choose("version 2.2")
    src = Source(c, "src_chan1.ljh", new=new)
    hdr = Header()
    kind = c.choose("by count")
    k = c.int("n_pulses", lo=0) if kind else c.real("timestamp")
    exists = c.choose("exists")
    same = exists and c.choose("same")
    m, out = setup(c, src, want=rec_want(src, lambda r: r), exists=exists, same=same, header=hdr, mode=("wb",))
    c.ghost, c.opened = out, None
    c.limit = k
    kw = {"n_pulses": k} if kind else {"timestamp": k}
    if c.choose("segment"):
        kw["segmentsize"] = 1000
    try:
        m.ljh_truncate("src_chan1.ljh", "dest_chan1.ljh", **kw)
    except Exception as ex:
        if isinstance(ex, (Unsupported, SpecMismatch, AttributeError, TypeError, AssertionError)):
            raise
        c.ensure("refused only for old versions or the source itself", same or not new)
        c.ensure("refused before anything is opened for writing", c.opened is None)
        return
    c.ensure("the source is never the destination", not same and new)
    r, n = out.r, src.nPulses
    c.ensure("nothing is left over", And(not out.pending, out.hdr == 1))
    if kind:
        c.ensure("the first n records", r == ite(k < n, k, n))
    else:
        q = c.int("q")
        t = src.datatimes_float
        c.ensure("all records before the first one later than the limit", And(r >= 0, r <= n, Implies(And(q >= 0, q < r), t.at(q) <= k),
                                                                             Implies(r < n, t.at(r) > k)))
    c.cover("truncated")


def inv_trunc(e):
    c = ctx()
    out = c.ghost
    x = [("records-written", out.r == e._k), ("nothing-pending", not out.pending)]
    if e.get("timestamp") is not None:
        t = e.infile.datatimes_float
        x.append(("times", forall(lambda q: Implies(And(q >= 0, q < e._k), t.at(q) <= c.limit), pats=lambda q: e.infile.us.at(q))))
    return x


def h_trunc_args(c):
    src = Source(c, "src_chan1.ljh")
    m, out = setup(c, src, want=rec_want(src, lambda r: r), header=Header())
    c.opened = None
    both = c.choose("both limits")
    ok = False
    try:
        m.ljh_truncate("src_chan1.ljh", "dest_chan1.ljh", **({"n_pulses": 3, "timestamp": 1.0} if both else {}))
    except Exception:
        ok = True
    c.ensure("exactly one limit must be given; otherwise nothing is written", ok and c.opened is None)


def h_modify(c):
    new = c.choose("version 2.2")
    src = Source(c, "src_chan1.ljh", new=new)
    hdr = Header()
    exists, over = c.choose("exists"), c.choose("overwrite")
    same = exists and c.choose("same")
    CB = z3.Function(c.fname("callback"), z3.IntSort(), z3.IntSort(), z3.IntSort())      # (record, sample) -> value
    seen = []

    class Rec(Sym):
        pass

    def result(i): return lazy((src.nSamples,), lambda j: SNum(CB(num(i).e, num(j).e)), src.data.dtype if False else U16)
    U16 = src.data._dt

    def callback(rec):
        # the callback is handed exactly the samples of the record being written
        i = out.r
        j = c.int("cbj")
        c.assume(And(j >= 0, j < src.nSamples))
        c.ensure("the callback is given the record's samples", And(num(rec.shape[0]) == src.nSamples, rec.at(j) == src.data.at(i, j)))
        return result(i)

    def want(r):
        if new:
            return [("raw", src.raw[r]), ("arr", 2, result(r))]
        return [("raw", src.raw[r]), ("arr", 2, result(r))]
    m, out = setup(c, src, want=want, exists=exists, same=same, header=hdr, mode=("wb",))
    c.ghost, c.opened = out, None
    try:
        m.LJHModify("src_chan1.ljh", "dest_chan1.ljh", callback, **({"overwrite": True} if over else {}))
    except ValueError:
        c.ensure("refused only when the output exists unasked or is the input", exists and (not over or same))
        c.ensure("refused before anything is opened for writing", c.opened is None)
        return
    c.ensure("an existing file is only overwritten when asked, the input never", (over or not exists) and not same)
    c.ensure("all records are written, nothing is left over", And(out.r == src.nPulses, not out.pending, out.hdr == 1))


# ---------------------------------------------------------------- header made for a copy, read back
class Val:
    """a header number: written in full it reads back as itself, written with fewer digits it may not"""
    n = 0

    def __init__(self, v, nm): self.v, self.nm = v, nm
    def __format__(self, spec): return f"<{self.nm}>" if spec in ("", "r", "d", "s") else f"<{self.nm}:{spec}>"
    __str__ = __repr__ = lambda s: f"<{s.nm}>"


def h_header(c):
    L = Loader(real_imports={"packaging", "packaging.version"})
    m = L.load("mass.core.files")
    v = {"nSamples": c.int("ns", lo=1, hi=100000), "nPresamples": c.int("pre"), "timebase": c.real("tb"), "subframe_divisions": c.int("div", lo=1), "subframe_offset": c.int("off")}
    d = {k: Val(x, k) for k, x in v.items()}
    d.update(asctime="now", version_str="2.2.0")
    for extra, x in (("number_of_rows", 3), ("number_of_columns", 2), ("row_number", 1), ("channum", 5), ("client", b"x"), ("filename", "f"), ("timestamp_offset", 0.0), ("header_dict", {})):
        d.setdefault(extra, x)
    txt = m.make_ljh_header(d)
    lines = [ln.rstrip("\r") for ln in txt.decode().split("\n")]
    c.ensure("ends with the end-of-header line", lines[-2:] == ["#End of Header", ""] and lines.count("#End of Header") == 1)
    hd = {}
    for ln in lines:
        if ":" in ln:
            a, b = ln.split(":", 1)
            b = b.strip()
            t = [x for k, x in v.items() if b == f"<{k}>"]
            hd[a.strip().encode()] = C04.Tok(t[0]) if t else (c_lossy(c, v, b) or b.encode())
    c.ensure("version", hd.get(b"Save File Format Version") == b"2.2.0")
    bs = c.int("bs", lo=0)
    C04.LOADNP["np"] = m.np
    C04.patch(m, c, 100 + bs)
    f = m.LJHFile2_2("a_chan1.ljh", hd, 100)
    c.ensure("read back: record and pretrigger length", And(f.nSamples == v["nSamples"], f.nPresamples == v["nPresamples"]))
    c.ensure("read back: sample period", f.timebase == v["timebase"])
    c.ensure("read back: subframe layout", And(f.subframe_divisions == v["subframe_divisions"], f.subframe_offset == v["subframe_offset"]))


def c_lossy(c, v, b):
    """a number written with limited digits reads back as some other number"""
    for k in v:
        if b.startswith(f"<{k}:"):
            return C04.Tok(c.real("rounded_" + k) if k == "timebase" else c.int("rounded_" + k))


LOOP = {("ljh_copy_traces", 0): LoopSpec(inv_out, havoc=havoc_out, handles=("dest_fp",)), ("ljh_append_traces", 0): LoopSpec(inv_out, havoc=havoc_out, handles=("dest_fp",)),
        ("ljh_truncate", 0): LoopSpec(inv_trunc, havoc=havoc_out, handles=("outfile",), dead=("prefix", "trace")),
        ("LJHModify", 0): LoopSpec(inv_out, havoc=havoc_out, handles=("outfile",), dead=("x", "data"))}
HARNESSES = [
    Harness("copy", h_copy, [F + "ljh_copy_traces", F + "helper_write_pulse"], specs=LOOP),
    Harness("append", h_append, [F + "ljh_append_traces", F + "helper_write_pulse"], specs=LOOP),
    Harness("truncate", h_truncate, [F + "ljh_truncate"], specs=LOOP),
    Harness("truncate_arguments", h_trunc_args, [F + "ljh_truncate"]),
    Harness("modify", h_modify, [F + "LJHModify"], specs=LOOP),
    Harness("copied_header", h_header, ["mass/core/files.py:make_ljh_header", "mass/core/files.py:LJHFile._parse_header"]),
]
