"""Pulse summaries: the compiled loop, the plain version and the chunk loop of summarize_data"""
import types

import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of, SArr, as_arr
from loader import Loader
from harness import Harness

CY = "mass/core/cython_channel.pyx:"
CH = "mass/core/channel.py:"
LOAD = Loader()
F64 = dt_of(rnp.float64)


# ---------------------------------------------------------------- the compiled loop
class Spec:
    """what the summary of record i of the data must be"""

    def __init__(self, data, first, ns, npre, en, peak, tb):
        self.data, self.first, self.ns, self.npre, self.en, self.peak, self.tb = data, first, ns, npre, en, peak, tb

    def d(self, i, k): return num(self.data.at(self.first + i, k))
    def s1(self, i, lo, hi): return Sum(lambda t: self.d(i, t), lo, hi)
    def s2(self, i, lo, hi): return Sum(lambda t: self.d(i, t) * self.d(i, t), lo, hi)
    def mean(self, i): return self.s1(i, 0, self.en) / self.en
    def rms(self, i): return SQRT(self.s2(i, 0, self.en) / self.en - self.mean(i) * self.mean(i))

    def avg(self, i): return self.s1(i, self.npre - 1, self.ns) / (self.ns - self.npre + 1) - self.mean(i)

    def ms(self, i, m):
        """mean square relative to m, by the average of the squares and the average of the samples after the trigger"""
        w = self.ns - self.npre + 1
        return self.s2(i, self.npre - 1, self.ns) / w - m * (self.s1(i, self.npre - 1, self.ns) / w - m) * 2 - m * m


def SQRT(x):
    return ctx().ghost["np"].sqrt(x)


def sqrt(x):
    """the square root; that of the mean square of the current record under its ghost name"""
    G = ctx().ghost
    j = G.get("j")
    if j is not None and ctx().provable(num(x) == G["S"].ms(j, G["g"].pretrig_mean(j))):
        return G["g"].pulse_rms(j)
    return SQRT(x)


def start(e):
    """a record begins: its ghost quantities"""
    G = ctx().ghost
    G["j"] = e._k
    return defs(G["S"], e._k)


def pulse(e):
    S = ctx().ghost["S"]
    return lambda k: num(S.data.at(S.first + e._d["j"], k))


def first_max(d, n, v, p):
    """v = d(p) is the largest of d(0..n-1), p the first place with it (v = 0 and p = 0 when all are 0 or there are none)"""
    return And(v >= 0, p >= 0, Implies(v == 0, p == 0), Or(v == 0, And(p < n, d(p) == v)),
               forall(lambda t: Implies(And(t >= 0, t < n), And(d(t) <= v, Implies(And(t < p), d(t) < v))), pats=lambda t: d(t)))


def least(d, n, v):
    q = z3.Int(ctx().fname("q"))
    return And(v <= 65535, Or(v == 65535, SBool(z3.Exists([q], And(SNum(q) >= 0, SNum(q) < n, d(SNum(q)) == v).e))),
               forall(lambda t: Implies(And(t >= 0, t < n), d(t) >= v), pats=lambda t: d(t)))


def inv_main(e):
    """the pass over the samples of one record"""
    S = ctx().ghost["S"]
    j, k = e.j, e._k
    d = pulse(e)
    en, np_ = S.en, S.npre
    ke = ite(k < en, k, en)
    kp = ite(k < np_ - 1, np_ - 1, k)
    r = [("pretrigger sum is not negative", e.pretrig_sum >= 0), ("pretrigger sum", e.pretrig_sum == S.s1(j, 0, ke)), ("pretrigger sum of squares", e.pretrig_rms_sum == S.s2(j, 0, ke)),
         ("pulse sum", e.pulse_sum == S.s1(j, np_ - 1, kp)), ("pulse sum of squares", e.pulse_rms_sum == S.s2(j, np_ - 1, kp)),
         ("largest so far", first_max(d, k, e.peak_value, e.peak_index)), ("least so far", least(d, k, e.min_value))]
    if e.get("ptm") is not None and isinstance(e.get("ptm"), SNum):
        r += [("pretrigger mean", Implies(k >= np_, And(e.ptm >= 0, e.ptm == S.mean(j)))), ("pretrigger rms", Implies(k >= np_, e.ptrms == S.rms(j)))]
    r.append(("prompt window", Or(And(e.s_prompt == np_ + 2, e.e_prompt == np_ + 8), And(k >= np_, e.s_prompt == np_ + 1, e.e_prompt == np_ + 7))))
    return r


OUTS = ("pretrig_mean", "pretrig_rms", "pulse_average", "pulse_rms", "peak_index", "peak_value", "min_value")


class Ghostfns:
    """ghost functions of the record number, defined by `defs`: the quantities of record i; largest sample and its first place; least sample"""

    def __init__(self, c):
        I, R = z3.IntSort(), z3.RealSort()
        for nm, r in (("pretrig_mean", R), ("pretrig_rms", R), ("pulse_average", R), ("pulse_rms", R), ("top", I), ("place", I), ("least", I)):
            f = z3.Function(c.fname("g_" + nm), I, r)
            setattr(self, nm, lambda i, f=f: SNum(f(num(i).e)))


def defs(S, i):
    g = ctx().ghost["g"]
    d = lambda k: S.d(i, k)
    q = SNum(z3.Int(ctx().fname("q")))
    return [g.pretrig_mean(i) == S.mean(i), g.pretrig_rms(i) == S.rms(i), g.pulse_average(i) == S.avg(i), g.pulse_rms(i) == SQRT(S.ms(i, g.pretrig_mean(i))),
            first_max(d, S.ns, g.top(i), g.place(i)), least(d, S.ns, g.least(i))]


def one(S, i, o):
    """the seven quantities of record i"""
    g = ctx().ghost["g"]
    m, V, P = g.pretrig_mean(i), g.top(i), g.place(i)
    half = SNum(z3.ToInt((m + num(0.5)).e))
    return {"pretrig_mean": o("pretrig_mean") == m, "pretrig_rms": o("pretrig_rms") == g.pretrig_rms(i), "pulse_average": o("pulse_average") == g.pulse_average(i),
            "pulse_rms": o("pulse_rms") == g.pulse_rms(i), "peak_value": o("peak_value") == ite(m < V, V - half, 0),
            "peak_index": o("peak_index") == ite(m < V, P, 0), "min_value": o("min_value") == g.least(i)}


def done(e, upto):
    S = ctx().ghost["S"]
    r = []
    for nm in OUTS:
        arr = lambda f: e._d[f"p_{f}_array"]
        r.append(("finished records: " + nm,
                  forall(lambda i: Implies(And(i >= 0, i < upto), one(S, i, lambda f: num(arr(f).at(i)))[nm]), pats=lambda i: arr(nm).at(i))))
    return r


def inv_rec(e):
    return done(e, e._k)


def inv_low(e):
    S = ctx().ghost["S"]
    return [("index", And(e.k >= S.npre, e.k <= S.ns))]


def inv_high(e):
    S = ctx().ghost["S"]
    return [("index", And(e.k >= S.npre, e.k <= S.ns))]


def inv_deriv(e):
    return []


ARR = ("pretrig_mean", "pretrig_rms", "pulse_average", "pulse_rms", "promptness", "rise_times", "postpeak_deriv", "peak_index", "peak_value",
       "min_value", "shift1")
ARR = tuple(f"p_{x}_array" for x in ARR)
NUMS = lambda *a: {x: "int" for x in a}
FN = "summarize_data_cython"
REALS = {x: "real" for x in ("pretrig_sum", "pretrig_rms_sum", "pulse_sum", "pulse_rms_sum", "promptness_sum", "ptm", "ptrms")}
SPECS = {
    (FN, 0): LoopSpec(inv_rec, dead=("pulse", "pretrig_sum", "pretrig_rms_sum", "pulse_sum", "pulse_rms_sum", "promptness_sum", "peak_value", "peak_index",
                                     "min_value", "s_prompt", "e_prompt", "signal", "k", "ptm", "ptrms", "pulse_avg", "low_th", "high_th", "low_value",
                                     "high_value", "low_idx", "high_idx", "s0", "s1", "s2", "s3", "s4", "t0", "t1", "t2", "t3", "t_max_deriv"),
                      types={"low_idx": "int", "high_idx": "int"}, stores=ARR, body_lemma=start),
    (FN, 1): LoopSpec(inv_main, types=dict(REALS, peak_value="int", peak_index="int", min_value="int", s_prompt="int", e_prompt="int", signal="int"),
                      stores=("p_shift1_array",)),
    (FN, 2): LoopSpec(inv_low, types=NUMS("k", "signal", "low_idx", "low_value")),
    (FN, 3): LoopSpec(inv_high, types=NUMS("k", "signal", "high_idx", "high_value")),
    (FN, 4): LoopSpec(inv_deriv, types=NUMS("s0", "s1", "s2", "s3", "s4", "t0", "t1", "t2", "t3", "t_max_deriv")),
}


def h_cython(c, **part):
    c.parts = {"fn": FN, **{int(k[1:]): v for k, v in part.items() if k[0] == "l"}}
    m = LOAD.load("mass.core.cython_channel")
    n, ns = c.int("records", lo=0), c.int("samples", lo=1, hi=65535)
    data = fresh(c, "data", (n, ns), rnp.uint16)
    npre, ign, peak = c.int("nPresamples", lo=1), c.int("ignored", lo=0), c.int("peak sample", lo=0)
    first, end = c.int("first", lo=0), c.int("end", lo=0)
    last = ite(end <= 0, n, end)
    c.assume(And(npre <= ns, ns - npre >= 1, npre - ign >= 1, npre <= 65520, first <= last, last <= n, peak <= 65535))
    if "deriv" in part:
        c.assume(peak + 6 < ns if part["deriv"] else peak + 6 >= ns)
    S = Spec(data, first, ns, npre, npre - ign, peak, tb := c.real("timebase"))
    c.ghost = {"S": S, "np": m.np, "g": Ghostfns(c)}
    m.sqrt = sqrt
    r = m.summarize_data_cython(data, tb, peak, ign, npre, first, end)
    i = c.int("i")
    c.assume(And(i >= 0, i < last - first))
    for f in OUTS:
        c.ensure("one result per record: " + f, num(r[f].shape[0]) == last - first)
    for nm, cond in one(S, i, lambda f: num(r[f].at(i))).items():
        c.ensure("record's " + nm, cond)
    c.cover("end")


# ---------------------------------------------------------------- the chunk loop
class PR(Ghost):
    """pulse records in chunks, by the contract of C04: n_segments chunks of pulses_per_seg records, the last may be shorter"""

    def __init__(self, c, n):
        self.nPulses, self.pulses_per_seg = n, c.int("pulses_per_seg", lo=1)
        self.n_segments = (n + self.pulses_per_seg - 1) // self.pulses_per_seg
        self.datafile = self
        self.number_of_rows = self.number_of_columns = 8
        self.row_number = self.column_number = 1
        self.subframe_divisions, self.subframe_offset = c.int("div", lo=1), 0


ATTRS = {"pretrig_mean": rnp.float32, "pretrig_rms": rnp.float32, "pulse_average": rnp.float32, "pulse_rms": rnp.float32, "promptness": rnp.float32,
         "postpeak_deriv": rnp.float32, "peak_index": rnp.uint16, "peak_value": rnp.uint16, "min_value": rnp.uint16, "rise_time": rnp.float32,
         "shift1": rnp.uint16, "timestamp": rnp.float64, "subframecount": rnp.int64, "pretrig_deriv": rnp.float32, "pretrig_offset": rnp.float32}
KEYS = {"rise_times": "rise_time"}


class Vec(Ghost):
    """a stored vector of one value per pulse"""
    attrs = {}

    def __init__(self, c, nm, n, dt): self.a = fresh(c, "p_" + nm, n, dt)
    def __getitem__(self, k): return self.a[k]
    def __setitem__(self, k, v): self.a[k] = v
    def __len__(self): return self.a.shape[0]
    def slen(self): return self.a.shape[0]
    def at(self, i): return self.a.at(i)
    @property
    def store(self): return self.a.store
    @property
    def dtype(self): return self.a.dtype


def dataset(c, m):
    ds = object.__new__(m.MicrocalDataSet)
    n, ns = c.int("n", lo=0), c.int("samples", lo=1, hi=65535)
    npre, cpre, cpost = c.int("nPresamples", lo=1), c.int("cut_pre", lo=0), c.int("cut_post", lo=0)
    c.assume(And(cpre < npre, npre < ns - cpost))
    ds.data = fresh(c, "data", (n, ns), rnp.uint16)
    ds.nPulses, ds.nSamples, ds.nPresamples, ds.timebase = n, ns, npre, c.real("timebase")
    ds.pulse_records = PR(c, n)
    for f, dt in ATTRS.items():
        setattr(ds, "p_" + f, Vec(c, f, n, dt))
    ds.times, ds.subframecount = fresh(c, "times", n, rnp.float64), fresh(c, "sub", n, rnp.int64)
    ds.channum = 1
    ds.tes_group = types.SimpleNamespace(experimentStateFile=None, updater=None)
    ds.hdf5_group = types.SimpleNamespace(file=types.SimpleNamespace(flush=lambda: None))
    return ds, n, ns, npre, cpre, cpost


def h_chunks(c):
    m = LOADCH.load("mass.core.channel")
    ds, n, ns, npre, cpre, cpost = dataset(c, m)
    cy = c.choose("compiled")
    peak = c.int("peak")
    F = {f: z3.Function(c.fname("F_" + f), z3.IntSort(), z3.IntSort() if ATTRS[f] in (rnp.uint16,) else z3.RealSort()) for f in ATTRS if f not in ("timestamp", "subframecount", "pretrig_deriv", "pretrig_offset")}
    for f in F:
        if ATTRS[f] is rnp.uint16:
            c.axiom(forall(lambda i, f=f: And(SNum(F[f](num(i).e)) >= 0, SNum(F[f](num(i).e)) + cpre <= 65535), pats=lambda i, f=f: SNum(F[f](num(i).e))))
    c.ghost = {"F": F, "ds": ds, "n": n, "cpre": cpre, "cy": cy}
    given = c.choose("peak time given")
    kw = {}
    ign = 3
    if given:
        kw = {"peak_time_microsec": c.real("peak time"), "pretrigger_ignore_microsec": c.real("ignored time")}
        c.assume(And(ds.timebase > 0, kw["peak_time_microsec"] >= 0, kw["pretrigger_ignore_microsec"] >= 0))

    def mode():
        ds.peak_samplenumber = peak
        return peak
    ds._compute_peak_samplenumber = mode

    def rows(a, b):
        """which records a slice of the data is: a..b, all used samples"""
        pass

    def sumdata(d, tb, pk, ig, pre, first=0, end=0):
        """contract of the compiled loop (proved above): what it returns depends on the records it is given and the parameters"""
        seg = ctx().ghost["seg"]
        a = seg * ds.pulse_records.pulses_per_seg
        k, s = c.int("k"), c.int("s")
        cnt = num(d.shape[0])
        c.ensure("a chunk of the records", And(cnt >= 1, a + cnt <= n, Or(cnt == ds.pulse_records.pulses_per_seg, a + cnt == n), end == cnt, num(first) == 0))
        c.ensure("the samples that are used", num(d.shape[1]) == ns - cpost - cpre)
        c.assume(And(k >= 0, k < cnt, s >= 0, s < ns - cpost - cpre))
        c.ensure("each record of the chunk", num(d.at(k, s)) == ds.data.at(a + k, cpre + s))
        c.ensure("the same parameters for every chunk", And(num(tb) == ds.timebase, num(pre) == npre - cpre, num(ig) == ds.pretrigger_ignore_samples, num(pk) + cpre == ds.peak_samplenumber))
        if not given:
            c.ensure("three samples before the trigger are ignored", num(ig) == 3)
        out = {}
        for f in F:
            key = {v: q for q, v in KEYS.items()}.get(f, f)
            out[key] = lazy((cnt,), lambda i, f=f: SNum(F[f]((a + i).e)), dt_of(ATTRS[f]))
        return out

    def plain(self, idx, doPretrigFit=False):
        """contract of _summarize_data_segment: fills in the given records"""
        seg = ctx().ghost["seg"]
        a = seg * ds.pulse_records.pulses_per_seg
        lo, hi = num(idx.start), num(idx.stop)
        c.ensure("a chunk of the records", And(lo == a, hi <= n, hi > lo, Or(hi - lo == ds.pulse_records.pulses_per_seg, hi == n)))
        for f in F:
            getattr(ds, "p_" + f)[lo:hi] = lazy((hi - lo,), lambda i, f=f: SNum(F[f]((lo + i).e)), dt_of(ATTRS[f]))
    m.MicrocalDataSet._summarize_data_segment = plain
    m.mass = types.SimpleNamespace(core=types.SimpleNamespace(cython_channel=types.SimpleNamespace(summarize_data_cython=sumdata)))
    ds.summarize_data(cut_pre=cpre, cut_post=cpost, forceNew=True, use_cython=cy, **kw)
    i = c.int("i")
    c.assume(And(i >= 0, i < n))
    for f in F:
        want = SNum(F[f](i.e)) + (cpre if f == "peak_index" and cy else 0)
        c.ensure("every record: " + f, num(getattr(ds, "p_" + f).at(i)) == want)
    if cy:
        c.ensure("every record: timestamp", ds.p_timestamp.at(i) == ds.times.at(i))
        c.ensure("every record: subframe count", ds.p_subframecount.at(i) == ds.subframecount.at(i))
    c.cover("end")


def inv_chunks(e):
    G = ctx().ghost
    ds, F, n = G["ds"], G["F"], G["n"]
    G["seg"] = e._k
    upto = e._k * ds.pulse_records.pulses_per_seg
    return [(f"{f} of the records so far", forall(lambda i: Implies(And(i >= 0, i < upto, i < n), num(getattr(ds, "p_" + f).at(i)) == SNum(F[f](num(i).e)) + (G["cpre"] if f == "peak_index" and G["cy"] else 0)),
            pats=lambda i: SNum(F[f](num(i).e)))) for f in F]


LOADCH = Loader()
SPECC = {("summarize_data", k): LoopSpec(inv_chunks) for k in (1, 2)}


# ---------------------------------------------------------------- the plain version
def h_plain(c):
    m = LOADPL.load("mass.core.channel")
    ds, n, ns, npre, cpre, cpost = dataset(c, m)
    ign = c.int("ignored", lo=0)
    c.assume(npre - ign > cpre)
    ds.pretrigger_ignore_samples, ds.cut_pre, ds.cut_post = ign, cpre, cpost
    ds.peak_samplenumber = c.int("peak", lo=0)
    lo, hi = c.int("lo", lo=0), c.int("hi")
    c.assume(And(lo < hi, hi <= n))
    rows = []

    class Alg:
        @staticmethod
        def estimateRiseTime(d, timebase=None, nPretrig=None): return fresh(c, "rise", hi - lo, rnp.float64)
        @staticmethod
        def compute_max_deriv(d, ignore_leading=0, **k): return fresh(c, "deriv", hi - lo, rnp.float64)
    m.mass = types.SimpleNamespace(core=types.SimpleNamespace(analysis_algorithms=Alg))
    real = NPREAL.setdefault("np", m.np)
    data = ds.data

    class View(Ghost):
        """the records as numpy sees them, with an opaque result for the prompt window (not one of the claimed quantities)"""
        def __getitem__(self, k):
            r, s = k
            if isinstance(s, slice) and s.start is not None and not c.provable(Or(num(s.start) == cpre, num(s.start) == npre)):
                return Opaque()
            return data[k]

    class Opaque(Ghost):
        def __getitem__(self, k): return self
        def mean(self, axis=None): return self
        def __sub__(self, o): return self
        def __truediv__(self, o): return self
        def __setitem__(self, k, v): pass
    ds.data = View()
    old = {f: getattr(ds, "p_" + f).a.copy() for f in OUTS}
    roots = []

    class Np:
        """numpy, remembering what square roots are taken of"""
        def sqrt(self, x):
            roots.append(x)
            return NPREAL["np"].sqrt(x)

        def __getattr__(self, k): return getattr(NPREAL["np"], k)
    m.np = Np()
    ds.p_promptness = Opaque()
    g = lambda r, s: num(data.at(r, s))
    ds._summarize_data_segment(slice(lo, hi), doPretrigFit=False)
    if c.choose("another record"):
        i = c.int("i")
        c.assume(And(i >= 0, i < n, Or(i < lo, i >= hi)))
        for f in OUTS:
            c.ensure("other records untouched: " + f, num(getattr(ds, "p_" + f).at(i)) == num(old[f].at(i)))
        return
    r = c.int("r")
    c.assume(And(r >= 0, r < hi - lo))
    i, inside = lo + r, sbool(True)
    e1, e2 = npre - ign, ns - cpost
    m1 = Sum(lambda t: g(i, cpre + t), 0, e1 - cpre) / (e1 - cpre)
    at = lambda f: num(getattr(ds, "p_" + f).at(i))
    c.ensure("record's pretrig_mean", Implies(inside, at("pretrig_mean") == m1))
    w = e2 - npre
    c.assume(And(m1 >= 0, m1 <= 65535))          # lemma: mean of 16-bit samples
    avg = Sum(lambda t: g(i, npre + t), 0, w) / w
    c.ensure("record's pulse_average", Implies(inside, at("pulse_average") == avg - m1))
    ms = Sum(lambda t: (g(i, npre + t) * 1.0) * (g(i, npre + t) * 1.0), 0, w) / w - m1 * (m1 + 2 * (avg - m1))
    if len(roots) != 1:
        raise SpecMismatch("one square root is expected")
    x = num(as_arr(roots[0]).at(r))
    c.ensure("record's pulse_rms is a root", at("pulse_rms") == real.sqrt(x))
    same = x == NPREAL["np"].maximum(ms, 0)
    gen = generalised(same)
    c.ensure("record's pulse_rms: mean square about the pretrigger mean", gen if c.provable(gen) else same)
    pre = lazy((e1 - cpre,), lambda t: g(i, cpre + t), data._dt)
    c.ensure("record's pretrig_rms", Implies(inside, at("pretrig_rms") == pre.std()))
    t, u = c.int("t"), c.int("u")
    c.assume(And(t >= 0, t < e2 - cpre, u >= 0, u < w))
    for inst in c.args2:
        c.assume(And(inst(r, t), inst(r, u)))
    q = z3.Int(c.fname("q"))
    Q = SNum(q)
    c.ensure("record's min_value is a lower bound", Implies(inside, at("min_value") <= g(i, cpre + t)))
    c.ensure("record's min_value is a sample", Implies(inside, SBool(z3.Exists([q], And(Q >= 0, Q < e2 - cpre, g(i, cpre + Q) == at("min_value")).e))))
    p = at("peak_index")
    c.ensure("record's peak index is after the trigger", Implies(inside, And(p >= npre, p < e2)))
    c.ensure("record's first peak", And(g(i, p) >= g(i, npre + u), Implies(npre + u < p, g(i, npre + u) < g(i, p))))
    half = SNum(z3.ToInt(m1.e))
    c.ensure("record's peak_value", Implies(inside, at("peak_value") == ite(g(i, p) > half, g(i, p) - half, 0)))
    c.cover("end")


def h_mean(c):
    """lemma, by induction: the sum of k samples of 16 bits is between 0 and 65535 k, so their mean is such a number, too"""
    x = fresh(c, "x", c.int("n", lo=0), rnp.uint16)
    k = c.int("k", lo=0)
    S = lambda k: Sum(lambda t: num(x.at(t)), 0, k)
    ok = lambda k: And(S(k) >= 0, S(k) <= k * 65535)
    c.ensure("no samples", ok(num(0)))
    c.assume(And(k < x.shape[0], ok(k)))
    c.ensure("one sample more", ok(k + 1))
    n = c.int("m", lo=1)
    c.assume(ok(n))
    mean = c.real("mean")
    c.assume(mean * n == S(n))
    c.ensure("mean", And(mean >= 0, mean <= 65535))
    c.cover("end")


LOADPL = Loader()
NPREAL = {}


def part(**k):
    return lambda c: h_cython(c, **k)


# one proof in parts: inside / after the pass over the samples, and after the last record
HARNESSES = [
    Harness("summarize_data_cython: one pass over the samples", part(l0="body", l1="body"), functions=[CY + "summarize_data_cython"], specs=SPECS),
    Harness("summarize_data_cython: record finished, late peak", part(l0="body", l1="exit", deriv=False), functions=[CY + "summarize_data_cython"], specs=SPECS, qtimeout=15),
    Harness("summarize_data_cython: record finished", part(l0="body", l1="exit", l4="exit", deriv=True), functions=[CY + "summarize_data_cython"], specs=SPECS, qtimeout=15),
    Harness("summarize_data_cython: derivative", part(l0="body", l1="exit", l4="body", deriv=True), functions=[CY + "summarize_data_cython"], specs=SPECS, qtimeout=15),
    Harness("summarize_data_cython: all records finished", part(l0="exit"), functions=[CY + "summarize_data_cython"], specs=SPECS),
    Harness("summarize_data: chunks", h_chunks, functions=[CH + "MicrocalDataSet.summarize_data"], specs=SPECC),
    Harness("_summarize_data_segment", h_plain, functions=[CH + "MicrocalDataSet._summarize_data_segment"]),
    Harness("lemma: mean of 16-bit samples", h_mean),
]
