"""LJH to OFF: every record's entry is a function of that record alone, in order, for any chunking and any list of files"""
import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of, SArr, as_arr
from loader import Loader
from harness import Harness

F = "mass/core/ljh2off.py:"
LOAD = Loader()
NPREAL = {}
I, R = z3.IntSort(), z3.RealSort()


def module():
    m = LOAD.load("mass.core.ljh2off")
    NPREAL.setdefault("np", m.np)
    return m


class Np:
    def __init__(self, **over): self.over = over

    def __getattr__(self, k):
        if k in self.__dict__.get("over", {}):
            return self.over[k]
        return getattr(NPREAL["np"], k)


class Ljh(Ghost):
    """an opened LJH file, by the contracts of C04"""

    def __init__(self, c, nm="f"):
        self.c, self.nm = c, nm
        self.nPulses, self.nSamples = c.int(nm + "_n", lo=0), c.int(nm + "_ns", lo=1)
        self.nPresamples = c.int(nm + "_pre", lo=0)
        self.subframe_divisions = c.int(nm + "_div", lo=1)
        self.timebase = c.real(nm + "_tb")
        self.binary_size, self.pulse_size_bytes = c.int(nm + "_bytes", lo=0), c.int(nm + "_psz", lo=1)
        # the record bytes: at least one byte each
        c.assume(And(self.binary_size >= self.nPulses, Implies(self.nPulses == 0, Or(self.binary_size == 0, self.binary_size > 0))))
        self.alldata = fresh(c, nm + "_data", (self.nPulses, self.nSamples), rnp.uint16)
        self.us = fresh(c, nm + "_us", self.nPulses, rnp.int64)
        u = self.us.snap()
        self.datatimes_float = lazy((self.nPulses,), lambda i: num(u(i)) / 1000000, dt_of(rnp.float64))
        self.subframecount = fresh(c, nm + "_sub", self.nPulses, rnp.int64)
        self.filename = nm
        self.column_number = self.row_number = 0
        self.number_of_columns = self.number_of_rows = 1


class Fit(Ghost):
    """contract of np.polyfit(x, Y, 1): per column the least-squares line; here: some function of that column's
    own values at the abscissae 0..n-1 (checked), evaluated by polyval"""
    def __init__(self, Y): self.Y = Y


def polyfit(x, Y, deg=1):
    c = ctx()
    k = c.int("pf")
    c.assume(And(k >= 0, k < num(x.shape[0])))
    c.ensure("line fitted against the sample numbers", And(num(x.at(k)) == k, num(x.shape[0]) == Y.shape[0], sbool(deg == 1)))
    return Fit(Y)


def line(col, v):
    """value at v of the least-squares line through a column (n, element function)"""
    n, f = num(col.shape[0]), col.snap()
    sy = Sum(lambda s: num(f(s)), 0, n)
    sxy = Sum(lambda s: num(s) * f(s), 0, n)
    fn = z3.Function("line", I, R, R, R, R)
    r = lambda x: z3.ToReal(num(x).e) if num(x).is_int else num(x).e
    return SNum(fn(n.e, r(sy), r(sxy), r(v)))


def polyval(fit, v):
    Y = fit.Y
    f = Y.snap()
    return lazy((Y.shape[1],), lambda r: line(lazy((Y.shape[0],), lambda s: f(s, r), Y._dt), v), dt_of(rnp.float64))


class Dt(Ghost):
    def __init__(self, n): self.n = n


class Struct(Ghost):
    """records being assembled: each field assigned as a whole"""
    def __init__(self, n, dt): self.n, self.dt, self.f = n, dt, {}

    def __setitem__(self, k, v):
        c = ctx()
        if k not in ("recordSamples", "recordPreSamples", "framecount", "unixnano", "pretriggerMean", "pretriggerDelta", "residualStdDev", "coefs"):
            raise KeyError(k)
        if isinstance(v, SArr) and v.ndim:
            if not c.provable(num(v.shape[0]) == self.n):
                c.ensure("one value per record: " + k, num(v.shape[0]) == self.n)
            if k == "coefs":
                c.ensure("one coefficient per basis vector", And(sbool(v.ndim == 2), num(v.shape[1]) == self.dt.n))
            self.f[k] = v.snap()
        else:
            self.f[k] = lambda *i, v=v: v

    def tofile(self, f):
        f.records(self)


class Out(Ghost):
    """the OFF file being written: `count` entries so far, which must be those of the input records in order"""

    def __init__(self, c, src, spec): self.c, self.src, self.spec, self.count, self.head = c, src, spec, num(0), []

    def write(self, b): self.head.append(("text", b))
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def records(self, st):
        c, r, b = self.c, self.c.int("r"), self.c.int("b")
        c.assume(And(r >= 0, r < st.n))
        for k, want in self.spec(self.src, self.count + r, b).items():
            if k not in st.f:
                c.ensure("every field is filled: " + k, sbool(False))
                continue
            if k == "coefs":
                c.assume(And(b >= 0, b < st.dt.n))
                c.ensure("coefficients of the record", num(st.f[k](r, b)) == want)
            elif k == "unixnano":
                c.ensure("time of the record", num(st.f[k](r)) == want)
            else:
                c.ensure(f"{k} of the record", num(st.f[k](r)) == want)
        self.count = self.count + st.n


def spec_for(P, B, ign):
    def spec(src, i, b):
        d = src.alldata
        ns, nb = src.nSamples, P.shape[0]
        co = lambda q: Sum(lambda s: num(P.at(q, s)) * d.at(i, s), 0, ns)
        npre = src.nPresamples - ign
        pre = lazy((npre,), lambda s: d.at(i, s), d._dt)
        res = lazy((ns,), lambda s: Sum(lambda q: num(B.at(s, q)) * co(q), 0, nb) - d.at(i, s), dt_of(rnp.float64))
        return {"recordSamples": ns, "recordPreSamples": src.nPresamples, "framecount": src.subframecount.at(i) // src.subframe_divisions,
                "unixnano": num(src.us.at(i)) * 1000, "pretriggerMean": pre.mean(), "residualStdDev": res.std(), "coefs": co(b),
                "pretriggerDelta": line(pre, npre - 1) - line(pre, 0)}
    return spec


def setup(c, m, src):
    nb = c.int("nbasis", lo=3)
    P = fresh(c, "proj", (nb, src.nSamples), rnp.float64)
    B = fresh(c, "basis", (src.nSamples, nb), rnp.float64)
    ign = c.int("ignore", lo=0)
    c.assume(And(src.nPresamples - ign >= 2, src.nPresamples <= src.nSamples))
    real = NPREAL["np"]

    def zeros(n, dtype=None):
        return Struct(num(n), dtype) if isinstance(dtype, Dt) else real.zeros(n, dtype=dtype)

    def std(a, axis=None): return as_arr(a).std(axis)
    m.np = Np(zeros=zeros, polyfit=polyfit, polyval=polyval)
    out = Out(c, src, spec_for(P, B, ign))
    c.ghost = out
    return P, B, ign, nb, out


def inv_chunks(e):
    c = ctx()
    out, src = c.ghost, c.ghost.src
    rec = e.get("rec_per_seg")
    yield ("written", e.records_written == out.count)
    yield ("progress", And(out.count == ite(e._k * rec < src.nPulses, e._k * rec, src.nPulses), rec >= 1))


def inv_none(e):
    """nothing is ever written"""
    yield ("nothing-written", And(ctx().ghost.count == 0, e.get("rec_per_seg") >= 1))
    yield ("no chunk is completed", e._k == 0)


def havoc_out(c, e):
    """what the invariant says is written at this point"""
    k = num(e._k) * e.get("rec_per_seg")
    n = c.ghost.src.nPulses
    c.ghost.count = k if c.provable(k <= n) else ite(k < n, k, n)


def h_chunks(c):
    m = module()
    src = Ljh(c)
    P, B, ign, nb, out = setup(c, m, src)
    n = m.ljh_records_to_off(src, out, P, B, ign, Dt(nb))
    c.ensure("one entry per record", out.count == src.nPulses)
    c.ensure("the number written is reported", num(n) == src.nPulses)
    c.cover("done")


def h_wrong_length(c):
    m = module()
    src = Ljh(c)
    P, B, ign, nb, out = setup(c, m, src)
    ns = c.int("other", lo=1)
    c.assume(And(Not(ns == src.nSamples), src.nPulses >= 1))
    P = fresh(c, "proj2", (nb, ns), rnp.float64)
    ok = False
    try:
        m.ljh_records_to_off(src, out, P, B, ign, Dt(nb))
    except AssertionError:
        ok = True
    c.ensure("projectors of another record length are refused, nothing is written", And(sbool(ok), out.count == 0))


# ------------------------------------------------------------ the list of files
class Mat(Ghost):
    def __init__(self, nm, shape): self.nm, self.shape = nm, shape
    def tofile(self, f): f.write(self.nm)


class Sink(Ghost):
    def __init__(self): self.log, self.files = [], num(0)
    def write(self, b): self.log.append(b)
    def __enter__(self): return self
    def __exit__(self, *a):
        self.log.append("closed")
        return False


class Paths(GSeq):
    pass


def inv_files(e):
    c = ctx()
    yield ("files-so-far", c.ghost.files == e._k + 1)


def havoc_files(c, e): c.ghost.files = c.int("files_done", lo=1)


class Head(Ghost):
    def encode(self, *a): return "header"


def h_files(c):
    m = module()
    many = c.choose("list of files")
    N = c.int("nfiles", lo=1) if many else num(1)
    sink = Sink()
    c.ghost = sink
    lens = z3.Function(c.fname("npulses"), I, I)
    nb = c.int("nbasis", lo=3)
    P, B = Mat("projectors", (nb, c.int("ns"))), Mat("basis", (c.int("ns"), nb))
    ign, dt = c.int("ign", lo=0), object()

    class File(Ghost):
        def __init__(self, k): self.k, self.nPulses = num(k), SNum(lens(num(k).e))

    class LJHFile:
        @staticmethod
        def open(p): return File(p.k)

    class Path(Ghost):
        def __init__(self, k): self.k = num(k)

    class Rd:
        @staticmethod
        def recordDtype(v, n, descriptive_coefs_names=True):
            c.ensure("layout of the announced version, coefficients together", And(sbool(v == "0.3.0"), num(n) == nb, sbool(not descriptive_coefs_names)))
            return dt

    class Off:
        off = Rd

    class Mass:
        pass
    Mass.LJHFile, Mass.off = LJHFile, Off
    m.mass = Mass

    def head(lf, p, b, h5):
        c.ensure("header describes these projectors and the first file", And(sbool(p is P and b is B and h5 == "model.hdf5"), lf.k == 0))
        return Head()

    def convert(lf, f, p, b, n, d):
        c.ensure("files in order, behind header, projectors and basis", And(lf.k == sink.files, sbool(sink.log == ["header", "projectors", "basis"]), sbool(f is sink)))
        c.ensure("same model for every file", And(sbool(p is P and b is B and d is dt), num(n) == ign))
        sink.files = sink.files + 1
        return lf.nPulses
    m.off_header_string_from_ljhfile, m.ljh_records_to_off = head, convert
    m.open = lambda fn, mode="r": (c.ensure("the output is written anew, in binary", sbool(fn == "out.off" and mode == "wb")), sink)[1]
    if many:
        m.multi_ljh2off(SSeq(N, lambda k: Path(k)), "out.off", P, B, ign, "model.hdf5")
    else:
        m.ljh2off(Path(0), "out.off", P, B, ign, "model.hdf5")
    c.ensure("every file is converted", sink.files == N)
    c.ensure("the file is complete", sbool(sink.log == ["header", "projectors", "basis", "closed"]))


def h_header(c):
    m = module()
    src = Ljh(c)
    nb, ns = c.int("nb", lo=3), c.int("ns", lo=1)
    P, B = Mat("p", (nb, ns)), Mat("b", (ns, nb))
    d = m.off_header_dict_from_ljhfile(src, P, B, "x.h5")
    mi = d["ModelInfo"]
    c.ensure("sizes and period", And(num(d["NumberOfBases"]) == nb, d["FramePeriodSeconds"] == src.timebase, sbool(d["FileFormat"] == "OFF" and d["FileFormatVersion"] == "0.3.0"),
                                     num(mi["Projectors"]["Rows"]) == nb, num(mi["Projectors"]["Cols"]) == ns, num(mi["Basis"]["Rows"]) == ns, num(mi["Basis"]["Cols"]) == nb))
    c.ensure("read as binary model", sbool("RowMajorFloat64ValuesBase64" not in mi["Projectors"]))


CH = {("ljh_records_to_off", 0): LoopSpec(inv_chunks, havoc=havoc_out, handles=("f",))}
HARNESSES = [
    Harness("chunks", h_chunks, [F + "ljh_records_to_off"], CH),
    Harness("wrong_length", h_wrong_length, [F + "ljh_records_to_off"], {("ljh_records_to_off", 0): LoopSpec(inv_none, havoc=havoc_out, handles=("f",))}),
    Harness("files", h_files, [F + "multi_ljh2off", F + "ljh2off"], {("multi_ljh2off", 0): LoopSpec(inv_files, havoc=havoc_files, handles=("f",))}),
    Harness("header", h_header, [F + "off_header_dict_from_ljhfile"]),
]
