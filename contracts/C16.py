"""Filtering: height and phase of a record are those of that record's own products with the filter"""
import types

import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of, SArr, as_arr
from loader import Loader
from harness import Harness

AA = "mass/core/analysis_algorithms.pyx:"
CH = "mass/core/channel.py:"
FL = "mass/off/fivelag.py:"
LOADA, LOADC, LOADF = Loader(), Loader(), Loader()
F64 = dt_of(rnp.float64)
FIT = tuple(tuple(x / 70.0 for x in r) for r in ((-6, 24, 34, 24, -6), (-14, -7, 0, 7, 14), (10, -5, -10, -5, 10)))


def parabola(conv):
    """least-squares parabola p0 + p1 x + p2 x^2 through five values at x = -2..2 (lemma below)"""
    r = []
    for row in FIT:
        s = num(0.0)
        for w, q in zip(row, conv):
            s = s + w * q
        r.append(s)
    return r


class Five:
    """ghost functions of the record number, defined where a record is filtered: the parabola through the five lagged products of record i"""

    def __init__(self, c, x, f, ns):
        self.x, self.f, self.ns, self.i = x, f, ns, None
        self.g = [z3.Function(c.fname(f"parabola{j}"), z3.IntSort(), z3.RealSort()) for j in range(3)]

    def p(self, j, i): return SNum(self.g[j](num(i).e))
    def product(self, j, i): return Sum(lambda t: num(self.x(i, t + j)) * self.f.at(t), 0, self.ns - 4)
    def defs(self, i): return [self.p(j, i) == q for j, q in enumerate(parabola([self.product(j, i) for j in range(5)]))]

    def is_vertex(self, i, phase, height):
        p0, p1, p2 = [self.p(j, i) for j in range(3)]
        return Implies(Not(p2 == 0), And(phase == -0.5 * p1 / p2, height == p0 - 0.25 * p1 * p1 / p2))


# ---------------------------------------------------------------- the compiled loop
FN = "filter_data_5lag_cython"


def start(e):
    G = ctx().ghost
    G.i = e._k
    return G.defs(e._k)


def inv_rec(e):
    c, G = ctx(), ctx().ghost
    ph, v = e.filt_phase, e.filt_value
    upto, now = e._k, []
    if G.i is not None and c.provable(e._k == G.i + 1):          # the record of this iteration by itself
        upto = G.i
        a = [q if is_sym(q) else c.real("nan") for q in (ph.at(G.i), v.at(G.i))]
        b = G.is_vertex(G.i, *a)
        b2 = with_same_quotients(b)
        now = [("this record", b2 if c.provable(b2) else b)]
    return now + [("finished records", forall(lambda i: Implies(And(i >= 0, i < upto), G.is_vertex(i, num(ph.at(i)), num(v.at(i)))), pats=lambda i: G.p(2, i)))]


def inv_conv(e):
    G = ctx().ghost
    k = e._k + 4
    i = e._d["i"]
    r = [("filter window", And(*[e._d[f"f{q}"] == num(G.f.at(k - 4 + q)) for q in range(4)]))]
    for j in range(5):
        r.append((f"product {j} so far", e._d[f"conv{j}"] == Sum(lambda t: num(G.x(i, t + j)) * G.f.at(t), 0, k - j)))
    return r


def last_terms(e):
    """the products in full, from those up to the end of the window"""
    c, G = ctx(), ctx().ghost
    i, out = e._d["i"], []
    for j in range(1, 5):
        part = lambda k: Sum(lambda t: num(G.x(i, t + j)) * G.f.at(t), 0, k)
        end = G.ns - 4
        s = part(end - j)
        for q in range(j, 0, -1):
            s = s + num(G.x(i, end - q + j)) * e._d[f"f{4 - q}"]
            part(end - q)
        out.append(part(end) == s)
        c.ensure(f"the last {j} terms of product {j}", out[-1])
    return out


R = {x: "real" for x in ("conv0", "conv1", "conv2", "conv3", "conv4", "f0", "f1", "f2", "f3", "f4", "p0", "p1", "p2")}
SPECA = {
    (FN, 0): LoopSpec(inv_rec, stores=("filt_phase", "filt_value"), body_lemma=start,
                      dead=("pulse", "f0", "f1", "f2", "f3", "f4", "conv0", "conv1", "conv2", "conv3", "conv4", "k", "sample", "p0", "p1", "p2")),
    (FN, 1): LoopSpec(inv_conv, types=dict(R, sample="int"), exit_lemma=last_terms),
}


def h_compiled(c, **part):
    c.parts = {"fn": FN, **{int(k[1:]): v for k, v in part.items()}}
    m = LOADA.load("mass.core.analysis_algorithms")
    n, ns = c.int("records", lo=0), c.int("samples", lo=1, hi=65535)
    raw = fresh(c, "raw", (n, ns), rnp.uint16)
    nf = c.int("filter length", lo=0)
    f = fresh(c, "filter", nf, rnp.float64)
    G = Five(c, lambda i, t: raw.at(i, t), f, ns)
    c.ghost = G
    try:
        v, p = m.filter_data_5lag_cython(raw, f, c.int("pulses_per_seg", lo=0, hi=10**6))
    except ValueError:
        c.ensure("refused when the filter does not fit the records", Or(Not(nf == ns - 4), ns < 8))
        return
    c.ensure("only filters of the right length are used", nf == ns - 4)
    i = c.int("i")
    c.assume(And(i >= 0, i < n))
    c.ensure("one result per record", And(num(v.shape[0]) == n, num(p.shape[0]) == n))
    c.ensure("vertex of the parabola of the record's products", G.is_vertex(i, num(p.at(i)), num(v.at(i))))
    c.cover("end")


def h_fit(c):
    """lemma: the matrix gives the least-squares parabola: the residuals are orthogonal to 1, x and x^2"""
    y = [c.real(f"y{j}") for j in range(5)]
    p = parabola(y)
    for q, nm in enumerate(("constant", "linear", "square")):
        s = num(0.0)
        for j in range(5):
            x = j - 2
            s = s + (y[j] - (p[0] + p[1] * x + p[2] * (x * x))) * x**q
        tol = num(0.0)
        for v in y:
            tol = tol + abs(v) * 1e-12
        c.ensure("residual orthogonal to the " + nm, And(s <= tol, s >= -tol))
    a, b, d, x = p[2], p[1], p[0], c.real("x")
    c.assume(Not(a == 0))
    u, h = c.real("u"), c.real("h")
    c.assume(And(u * a == -0.5 * b, (h - d) * a == -0.25 * b * b))
    A, B, D = c.real("A"), c.real("B"), c.real("D")
    c.assume(And(Not(A == 0), u * A == -0.5 * B, (h - D) * A == -0.25 * B * B))
    c.ensure("value at the vertex", (h - (D + B * u + A * u * u)) * A == 0)
    c.cover("end")


# ---------------------------------------------------------------- the plain versions
class Vec(Ghost):
    """a stored vector of one value per pulse"""

    def __init__(self, c, nm, n, dt): self.a = fresh(c, "p_" + nm, n, dt)
    def __getitem__(self, k): return self.a[k].copy()

    def __setitem__(self, k, v):
        if v is None:
            lo, hi = num(k.start), num(k.stop)
            ctx().ensure("nothing is stored only where there are no records", lo >= hi)
            return
        self.a[k] = v

    def __len__(self): return self.a.shape[0]
    def slen(self): return self.a.shape[0]
    def at(self, i): return self.a.at(i)
    @property
    def store(self): return self.a.store
    @property
    def dtype(self): return self.a.dtype
    @property
    def shape(self): return self.a.shape


def dataset(c, m):
    ds = object.__new__(m.MicrocalDataSet)
    n, ns = c.int("n", lo=0), c.int("samples", lo=6, hi=65535)
    ds.data = fresh(c, "data", (n, ns), rnp.uint16)
    ds.nPulses, ds.nSamples, ds.channum = n, ns, 1
    ds.p_pretrig_mean = Vec(c, "pretrig_mean", n, rnp.float64)
    ds.p_filt_phase, ds.p_filt_value = Vec(c, "filt_phase", n, rnp.float64), Vec(c, "filt_value", n, rnp.float64)
    ds.p_shift1 = Vec(c, "shift1", n, rnp.bool_)
    ds.tes_group = types.SimpleNamespace(updater=None)
    ds.hdf5_group = types.SimpleNamespace(file=types.SimpleNamespace(flush=lambda: None))
    return ds, n, ns


def transformed(c, ds):
    """the samples as filtered: as they are, or a function (elementwise) of sample minus pretrigger mean"""
    if not c.choose("transform"):
        return None, lambda i, t: num(ds.data.at(i, t))
    T = z3.Function(c.fname("transform"), z3.RealSort(), z3.RealSort())
    one = lambda v: SNum(T((num(v) * 1.0).e))

    def tr(d):
        f = d.snap()
        return lazy(d.shape, lambda *k: one(f(*k)), F64)
    return tr, lambda i, t: one(num(ds.data.at(i, t)) - ds.p_pretrig_mean.at(i))


def h_five(c):
    m = LOADC.load("mass.core.channel")
    ds, n, ns = dataset(c, m)
    tr, x = transformed(c, ds)
    f = fresh(c, "filter", c.int("filter length", lo=0), rnp.float64)
    lo, hi = c.int("lo", lo=0), c.int("hi")
    c.assume(And(lo <= hi, hi <= n))
    try:
        ph, v = ds._filter_data_segment_5lag(f, None, lo, hi, transform=tr)
    except AssertionError:
        c.ensure("only filters of another length are refused", Not(num(f.shape[0]) == ns - 4))
        return
    if ph is None:
        c.ensure("nothing only where there are no records", And(lo >= n, sbool(v is None)))
        return
    c.ensure("only filters of the right length are used", num(f.shape[0]) == ns - 4)
    r = c.int("r")
    c.assume(And(r >= 0, r < hi - lo))
    c.ensure("one result per record", And(num(ph.shape[0]) == hi - lo, num(v.shape[0]) == hi - lo))
    G = Five(c, x, f, ns)
    i = lo + r
    c.assume(And(*G.defs(i)))
    b = G.is_vertex(i, num(ph.at(r)), num(v.at(r)))
    b2 = with_same_quotients(b)
    c.ensure("vertex of the parabola of the record's products", b2 if c.provable(b2) else b)
    c.cover("end")


def h_ats(c):
    m = LOADC.load("mass.core.channel")
    ds, n, ns = dataset(c, m)
    tr, x = transformed(c, ds)
    shift = c.choose("filter with shift")
    nf = ns - 1 if shift else ns
    f, dt = fresh(c, "filter", nf, rnp.float64), fresh(c, "dt", nf, rnp.float64)
    lo, hi = c.int("lo", lo=0), c.int("hi")
    c.assume(And(lo <= hi, hi <= n))
    g = ds._filter_data_segment_ats if shift else ds._filter_data_segment_ats_dont_shift1
    ph, v = g(f, dt, lo, hi, transform=tr)
    if ph is None:
        c.ensure("nothing only where there are no records", And(lo >= n, sbool(v is None)))
        return
    r = c.int("r")
    c.assume(And(r >= 0, r < hi - lo))
    i = lo + r
    c.ensure("one result per record", And(num(ph.shape[0]) == hi - lo, num(v.shape[0]) == hi - lo))
    late = c.choose("shifted record") if shift else False
    if shift:
        c.assume(sbool(ds.p_shift1.at(i)) if late else Not(ds.p_shift1.at(i)))
    off = 1 if shift and not late else 0
    A = Sum(lambda t: num(x(i, t + off)) * f.at(t), 0, nf)
    B = Sum(lambda t: num(x(i, t + off)) * dt.at(t), 0, nf)
    c.ensure("height: product with the pulse filter", num(v.at(r)) == A)
    c.assume(Not(A == 0))
    b = num(ph.at(r)) == B / A
    b2 = with_same_quotients(b)
    c.ensure("phase: product with the derivative filter over the height", b2 if c.provable(b2) else b)
    c.cover("end")


# ---------------------------------------------------------------- the chunk loop and the choice of method
class PR(Ghost):
    """pulse records in chunks of pulses_per_seg; one chunk more when the file ends in a partial record"""

    def __init__(self, c, n):
        self.pulses_per_seg = c.int("pulses_per_seg", lo=1)
        self.n_segments = (n + self.pulses_per_seg - 1) // self.pulses_per_seg + (1 if c.choose("partial record") else 0)


def h_chunks(c):
    m = LOADC.load("mass.core.channel")
    ds, n, ns = dataset(c, m)
    ds.pulse_records = PR(c, n)
    ds.pulse_records.datafile = types.SimpleNamespace(alldata=ds.data)
    kind = "ats" if c.choose("ats") else "5lag"
    ds._filter_type = kind
    F = {q: z3.Function(c.fname("F_" + q), z3.IntSort(), z3.RealSort()) for q in ("phase", "value")}
    shift = kind == "ats" and c.choose("filter with shift")
    nf = ns - 4 if kind == "5lag" else ns - 1 if shift else ns
    flt, dt = fresh(c, "filter", nf, rnp.float64), fresh(c, "dt", nf, rnp.float64)
    ds.filter = types.SimpleNamespace(values=flt, dt_values=dt)
    tr = (lambda d: d) if c.choose("transform") else None
    c.ghost = types.SimpleNamespace(F=F, ds=ds, n=n)

    def method(name):
        def seg(self, fv, fat, first, end, transform=None):
            """contract of the segment functions (proved above): what a record gives depends on that record and the filter"""
            c.ensure("the method that belongs to the filter", sbool(name == kind + ("" if kind == "5lag" or shift else "_plain")))
            c.ensure("the filter and transform that were asked for", sbool(fv is flt and transform is tr and (kind == "5lag" or fat is dt)))
            lo, hi = num(first), num(end)
            c.ensure("a chunk of the records", And(lo >= 0, hi <= n, Or(lo <= hi, lo >= n)))
            if c.decide((lo >= n).e if is_sym(lo >= n) else z3.BoolVal(bool(lo >= n))):
                return None, None
            return tuple(lazy((hi - lo,), lambda i, q=q: SNum(F[q]((lo + i).e)), F64) for q in ("phase", "value"))
        return seg
    D = m.MicrocalDataSet
    D._filter_data_segment_5lag, D._filter_data_segment_ats, D._filter_data_segment_ats_dont_shift1 = method("5lag"), method("ats"), method("ats_plain")

    class Fast:
        @staticmethod
        def filter_data_5lag_cython(raw, fv, *a):
            """contract of the compiled loop (proved above)"""
            c.ensure("the compiled version filters all records with the 5-lag filter", sbool(raw is ds.data and fv is flt and kind == "5lag"))
            c.ensure("the compiled version does not transform", sbool(tr is None))
            return tuple(lazy((n,), lambda i, q=q: SNum(F[q](num(i).e)), F64) for q in ("value", "phase"))
    m.mass = types.SimpleNamespace(core=types.SimpleNamespace(analysis_algorithms=Fast))
    how = None if c.choose("default") else c.choose("compiled")
    try:
        ds.filter_data(transform=tr, forceNew=True, use_cython=how)
    except ValueError:
        c.ensure("refused only when the compiled version is asked for something it cannot do", sbool(how is True and (tr is not None or kind == "ats")))
        return
    i = c.int("i")
    c.assume(And(i >= 0, i < n))
    c.ensure("every record's phase", num(ds.p_filt_phase.at(i)) == SNum(F["phase"](i.e)))
    c.ensure("every record's height", num(ds.p_filt_value.at(i)) == SNum(F["value"](i.e)))
    c.cover("end")


def inv_chunks(e):
    G = ctx().ghost
    upto = e._k * G.ds.pulse_records.pulses_per_seg
    at = {"phase": G.ds.p_filt_phase, "value": G.ds.p_filt_value}
    return [(q + " of the records so far", forall(lambda i: Implies(And(i >= 0, i < upto, i < G.n), num(at[q].at(i)) == SNum(G.F[q](num(i).e))),
             pats=lambda i: SNum(G.F[q](num(i).e)))) for q in ("phase", "value")]


SPECC = {("_filter_data_nocython", 0): LoopSpec(inv_chunks)}


# ---------------------------------------------------------------- five lags in a basis
def h_basis(c):
    m = LOADF.load("mass.off.fivelag")
    nb, ns = c.int("nbasis", lo=1), c.int("samples", lo=6)
    B = fresh(c, "basis", (ns, nb), rnp.float64)
    f = fresh(c, "filter", ns - 4, rnp.float64)
    inb, fit = m.calc_5lag_fit_matrix(f, B)
    q = c.int("q")
    c.assume(And(q >= 0, q < nb))
    lag = [Sum(lambda t: f.at(t) * B.at(t + j, q), 0, ns - 4) for j in range(5)]
    for j in range(5):
        c.ensure(f"product {j} with each basis vector", num(inb.at(j, q)) == lag[j])
    for j, want in enumerate(parabola(lag)):
        c.ensure(f"term {j} of the parabola of each basis vector", num(fit.at(q, j)) == want)
    c.cover("end")


def h_vertex(c):
    m = LOADF.load("mass.off.fivelag")
    n = c.int("n", lo=0)
    cba = fresh(c, "cba", (n, 3), rnp.float64)
    y, x = m.filtValue5Lag(cba), m.peakX5Lag(cba)
    i = c.int("i")
    c.assume(And(i >= 0, i < n))
    p0, p1, p2 = (num(cba.at(i, j)) for j in range(3))
    c.assume(Not(p2 == 0))
    b = And(num(x.at(i)) == -0.5 * p1 / p2, num(y.at(i)) == p0 - 0.25 * p1 * p1 / p2)
    b2 = with_same_quotients(b)
    c.ensure("vertex of each record's parabola", b2 if c.provable(b2) else b)
    c.ensure("one result per record", And(num(x.shape[0]) == n, num(y.shape[0]) == n))
    c.cover("end")


HARNESSES = [
    Harness("filter_data_5lag_cython: products", lambda c: h_compiled(c, l0="body", l1="body"), functions=[AA + FN], specs=SPECA),
    Harness("filter_data_5lag_cython: record finished", lambda c: h_compiled(c, l0="body", l1="exit"), functions=[AA + FN], specs=SPECA),
    Harness("filter_data_5lag_cython: all records", lambda c: h_compiled(c, l0="exit"), functions=[AA + FN], specs=SPECA),
    Harness("lemma: least-squares parabola", h_fit),
    Harness("_filter_data_segment_5lag", h_five, functions=[CH + "MicrocalDataSet._filter_data_segment_5lag"]),
    Harness("_filter_data_segment_ats", h_ats, functions=[CH + "MicrocalDataSet._filter_data_segment_ats", CH + "MicrocalDataSet._filter_data_segment_ats_dont_shift1"]),
    Harness("filter_data: chunks", h_chunks, functions=[CH + "MicrocalDataSet.filter_data", CH + "MicrocalDataSet._filter_data_nocython"], specs=SPECC),
    Harness("five lags in a basis", h_basis, functions=[FL + "calc_5lag_fit_matrix"]),
    Harness("vertex in a basis", h_vertex, functions=[FL + "filtValue5Lag", FL + "peakX5Lag"]),
]
