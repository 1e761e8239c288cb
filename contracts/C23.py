"""Power spectra and noise autocorrelations: accumulation, normalisation, acceptance"""
import types

import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of, SArr, as_arr
from loader import Loader
from harness import Harness

PS = "mass/mathstat/power_spectrum.py:"
CH = "mass/core/channel.py:"
LOAD, LOADC = Loader(), Loader()
F64 = dt_of(rnp.float64)
R, I = z3.RealSort(), z3.IntSort()
NPREAL = {}

# the cosine and sine of 2 pi k t / n: uninterpreted, the same functions in code and specification
COS, SIN = z3.Function("cos_kt", I, I, I, R), z3.Function("sin_kt", I, I, I, R)


def wave(f, k, t, n): return SNum(f(num(k).e, num(t).e, num(n).e))


class Cplx(Ghost):
    """array of complex numbers"""

    def __init__(self, re, im): self.real, self.imag = re, im
    def conj(self): return Cplx(self.real, -self.imag)
    conjugate = conj

    def __mul__(self, o):
        if isinstance(o, Cplx):
            return Cplx(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
        return Cplx(self.real * o, self.imag * o)
    __rmul__ = __mul__
    def __abs__(self): return Abs(self)

    def __pow__(self, k):
        if k != 2:
            raise Unsupported("power of a complex array")
        return self * self

    @property
    def shape(self): return self.real.shape


class Abs(Ghost):
    """absolute value of complex numbers; used squared"""

    def __init__(self, z): self.z = z

    def __pow__(self, k):
        if k != 2:
            raise Unsupported("power of an absolute value")
        return self.z.real * self.z.real + self.z.imag * self.z.imag

    def __mul__(self, o):
        if o is self:
            return self**2
        raise Unsupported("product of absolute values")


def part(x, n, k, f):
    return Sum(lambda t: num(x(t)) * wave(f, k, t, n), 0, n)


def rfft(x):
    """contract of numpy.fft.rfft: terms 0..n/2 of the sums of x_t exp(-2 pi i k t / n)"""
    x = as_arr(x)
    n, f = num(x.shape[0]), x.snap()
    m = (n // 2 + 1,)
    return Cplx(lazy(m, lambda k: part(f, n, k, COS), F64), lazy(m, lambda k: -part(f, n, k, SIN), F64))


class Np:
    def __init__(self, **over): self.__dict__["over"] = over

    def __getattr__(self, k):
        o = self.__dict__.get("over", {})
        return o[k] if k in o else getattr(NPREAL["np"], k)


def np_abs(x): return abs(x) if isinstance(x, Cplx) else NPREAL["np"].abs(x)


def module():
    m = LOAD.load("mass.mathstat.power_spectrum")
    NPREAL.setdefault("np", m.np)
    m.np = Np(fft=types.SimpleNamespace(rfft=rfft), abs=np_abs, absolute=np_abs)
    return m


def periodogram(x, w, n, dt, k):
    """one-sided: 2 dt / (sum of squared weights) |transform of weights times data|^2"""
    g = lambda t: num(w(t)) * x(t)
    s2 = Sum(lambda t: num(w(t)) * w(t), 0, n)
    a, b = part(g, n, k, COS), part(g, n, k, SIN)
    return (a * a + b * b) * (2 * num(dt)) / s2


def obj(m, c, cls=None):
    p = object.__new__(cls or m.PowerSpectrum)
    p.m = c.int("m", lo=1)
    p.m2 = 2 * p.m
    p.nsegments = c.int("segments", lo=0)
    p.specsum = fresh(c, "specsum", p.m + 1, rnp.float64)
    p.dt = c.real("dt")
    c.assume(p.dt > 0)
    return p


def window_kind(c, n):
    k = "none" if c.choose("no window") else "vector" if c.choose("vector") else "function"
    if k == "none":
        return None, (lambda t: num(1.0)), k
    w = fresh(c, "window", n, rnp.float64)
    f = w.snap()
    if k == "vector":
        return w, f, k

    def win(size):
        c.ensure("window of the length of a segment", num(size) == n)
        return w
    return win, f, k


def h_add(c):
    m = module()
    p = obj(m, c)
    L = c.int("length", lo=0)
    x = fresh(c, "x", L, rnp.float64)
    win, w, kind = window_kind(c, p.m2)
    old, n0 = p.specsum.copy(), p.nsegments
    try:
        p.addDataSegment(x, window=win)
    except ValueError:
        k = c.int("k")
        c.assume(And(k >= 0, k <= p.m))
        c.ensure("only segments of another length are refused", Not(L == p.m2))
        c.ensure("a refused segment changes nothing", And(num(p.specsum.at(k)) == num(old.at(k)), num(p.nsegments) == n0))
        return
    c.ensure("only segments of the right length are used", L == p.m2)
    c.ensure("one segment more", num(p.nsegments) == n0 + 1)
    k = c.int("k")
    c.assume(And(k >= 0, k <= p.m))
    if kind == "none":
        s2 = Sum(lambda t: num(1.0), 0, p.m2)
        c.assume(s2 == p.m2)                # lemma below
        c.assume(Sum(lambda t: num(1.0) * num(1.0), 0, p.m2) == p.m2)
    s2 = Sum(lambda t: num(w(t)) * w(t), 0, p.m2)
    c.assume(Not(s2 == 0))
    g = lambda t: num(w(t)) * x.at(t)
    a, b = part(g, p.m2, k, COS), part(g, p.m2, k, SIN)
    c.ensure("the segment's periodogram is added", (num(p.specsum.at(k)) - num(old.at(k))) * s2 == (a * a + b * b) * (2 * p.dt))
    c.cover("end")


def h_ones(c):
    """lemma: n ones add up to n; and by induction the sum after n segments is the sum of their periodograms"""
    n = c.int("n", lo=0)
    S = lambda n: Sum(lambda t: num(1.0), 0, n)
    c.ensure("none", S(num(0)) == 0)
    c.assume(S(n) == n)
    c.ensure("one more", S(n + 1) == n + 1)
    c.cover("end")


class Segments(Ghost):
    """what happens to a spectrum, by the contract of addDataSegment: segment number i adds per(i, k)"""


def h_long(c):
    m = module()
    p = obj(m, c)
    N = c.int("N", lo=0)
    x = fresh(c, "x", N, rnp.float64)
    win, w, kind = window_kind(c, p.m2)
    n0 = p.nsegments
    c.ghost = G = types.SimpleNamespace(p=p, n0=n0, done=num(0))

    def add(self, data, window=None):
        t = c.int("t")
        c.assume(And(t >= 0, t < p.m2))
        c.ensure("a segment of the right length", num(data.shape[0]) == p.m2)
        c.ensure("consecutive segments", num(data.at(t)) == num(x.at(G.done * p.m2 + t)))
        c.ensure("the window that was asked for", sbool(window is win))
        G.done = G.done + 1
    m.PowerSpectrum.addDataSegment = add
    p.addLongData(x, window=win)
    c.ensure("every full segment once", And(G.done * p.m2 <= N, N < (G.done + 1) * p.m2))
    c.cover("end")


def inv_long(e):
    yield ("segments so far", ctx().ghost.done == e._k)


def havoc_long(c, e): c.ghost.done = num(e._k)


def h_read(c):
    m = module()
    p = obj(m, c)
    k = c.int("k")
    c.assume(And(k >= 0, k <= p.m, p.nsegments >= 1))
    old, n0 = p.specsum.copy(), p.nsegments
    s = p.spectrum()
    if c.choose("result is changed"):
        s[0] = c.real("other")
        s2 = p.spectrum()
        c.ensure("a value per frequency", num(s2.shape[0]) == p.m + 1)
        c.ensure("average over the segments", num(s2.at(k)) == num(old.at(k)) / n0)
    else:
        c.ensure("a value per frequency", num(s.shape[0]) == p.m + 1)
        c.ensure("average over the segments", num(s.at(k)) == num(old.at(k)) / n0)
    c.ensure("reading changes nothing", And(num(p.specsum.at(k)) == num(old.at(k)), num(p.nsegments) == n0))
    f = p.frequencies()
    c.ensure("a frequency per value", num(f.shape[0]) == p.m + 1)
    c.ensure("equal steps from zero to Nyquist", num(f.at(k)) * (2 * p.dt * p.m) == k)
    nb = c.int("bins", lo=1)
    try:
        f = p.frequencies(nb)
    except ValueError:
        c.ensure("only too many bins are refused", nb > p.m)
        return
    j = c.int("j")
    c.assume(And(j >= 0, j <= nb))
    c.ensure("rebinned frequencies", And(num(f.shape[0]) == nb + 1, num(f.at(j)) * (2 * p.dt * nb) == j))
    c.cover("end")


def h_new(c):
    m = module()
    M = c.int("m", lo=1)
    dt = c.real("dt")
    p = m.PowerSpectrum(M, dt=dt) if c.choose("dt") else m.PowerSpectrum(M, dt=None)
    k = c.int("k")
    c.assume(And(k >= 0, k <= M))
    c.ensure("starts empty", And(num(p.nsegments) == 0, num(p.specsum.at(k)) == 0, num(p.specsum.shape[0]) == M + 1, num(p.m2) == 2 * M, num(p.m) == M))
    c.cover("end")


def h_copy(c):
    m = module()
    p = obj(m, c, m.PowerSpectrumOverlap if (ov := c.choose("overlap")) else None)
    if ov:
        p.first = False
        p.fullseg = fresh(c, "fullseg", p.m2, rnp.float64)
    q = p.copy()
    k, v, v2 = c.int("k"), c.real("v"), c.real("v2")
    c.assume(And(k >= 0, k <= p.m))
    old = num(p.specsum.at(k))
    c.ensure("same sums and number", And(num(q.specsum.at(k)) == old, num(q.nsegments) == num(p.nsegments), num(q.m2) == num(p.m2), q.dt == p.dt))
    c.ensure("same kind", sbool(type(q) is type(p)))
    z = fresh(c, "z", p.m + 1, rnp.float64)
    q.specsum += z
    q.nsegments += 1
    c.ensure("the original is not changed through the copy", num(p.specsum.at(k)) == old)
    c.ensure("the copy is", num(q.specsum.at(k)) == old + z.at(k))
    c.cover("end")


def h_overlap(c):
    m = module()
    p = obj(m, c, m.PowerSpectrumOverlap)
    x, y, z = (fresh(c, nm, p.m, rnp.float64) for nm in "xyz")
    p.first = True
    win, w, kind = window_kind(c, p.m2)
    got = []
    m.PowerSpectrum.addDataSegment = lambda self, d, window=None: got.append((d.copy(), window))
    p.addDataSegment(x, window=win)
    c.ensure("nothing is added with the first half segment", sbool(len(got) == 0))
    p.addDataSegment(y, window=win)
    p.addDataSegment(z, window=win)
    c.ensure("one pair per further half segment", sbool(len(got) == 2 and all(q is win for _, q in got)))
    t = c.int("t")
    c.assume(And(t >= 0, t < p.m))
    for (d, _), (a, b) in zip(got, ((x, y), (y, z))):
        c.ensure("pairs of neighbours", And(num(d.shape[0]) == p.m2, num(d.at(t)) == a.at(t), num(d.at(p.m + t)) == b.at(t)))
    c.cover("end")


def h_convenience(c):
    m = module()
    N = c.int("N", lo=2)
    x = fresh(c, "x", N, rnp.float64)
    M = N // 2
    win, w, kind = window_kind(c, 2 * M)
    log = []

    class P(Ghost):
        def __init__(self, mm, dt=1.0): self.m, self.dt = mm, dt

        def addDataSegment(self, d, window=None):
            log.append((self.m, self.dt, d, window))

        def spectrum(self): return "spectrum"
        def frequencies(self): return "frequencies"
    m.PowerSpectrum = P
    dt = c.real("dt") if c.choose("dt") else None
    if kind == "vector":
        class V(Ghost):
            """a sequence of weights"""
            def __init__(self, a): self.a = a
    r = m.computeSpectrum(x, dt=dt, window=win)
    c.ensure("one segment", sbool(len(log) == 1))
    mm, d, seg, ww = log[0]
    t = c.int("t")
    c.assume(And(t >= 0, t < 2 * M))
    c.ensure("all data but an odd sample", And(num(mm) == M, num(seg.shape[0]) == 2 * M, num(seg.at(t)) == x.at(t)))
    if kind == "none":
        c.ensure("no window", sbool(ww is None))
    else:
        c.ensure("the window that was asked for", num(as_arr(ww).at(t)) == num(w(t)) if ww is not None else sbool(False))
    c.ensure("what is returned", sbool(r == ("spectrum" if dt is None else ("frequencies", "spectrum"))))
    c.cover("end")


# ---------------------------------------------------------------- noise records
def noise(c, m, cont=False):
    nr = object.__new__(m.NoiseRecords)
    n, ns = c.int("records", lo=0), c.int("samples", lo=2)
    data = fresh(c, "data", (n, ns), rnp.uint16)
    nr.datafile = types.SimpleNamespace(alldata=data)
    nr.nSamples, nr.nPulses, nr.timebase, nr.continuous = ns, n, c.real("timebase"), cont
    nr.autocorrelation = fresh(c, "ac", ns, rnp.float64)
    nr.hdf5_group = None
    nr.noise_psd = None
    return nr, data, n, ns


class Mat2(Ghost):
    pass


def h_psd(c):
    m = LOADC.load("mass.core.channel")
    nr, data, n, ns = noise(c, m)
    lim = c.real("max_excursion")
    half = ns // 2
    W = fresh(c, "window", 2 * half, rnp.float64)
    kind = c.choose("window")

    def win(size):
        c.ensure("window of the length of a segment", num(size) == 2 * half)
        return W
    x = lambda i, t: num(data.at(i, t))
    mean = lambda i: Sum(lambda t: x(i, t), 0, 2 * half) / (2 * half)
    per = z3.Function(c.fname("periodogram"), I, I, R)      # of record i less its mean, by the contract of addDataSegment
    G = c.ghost = types.SimpleNamespace(i=None, use=z3.Function(c.fname("accepted"), I, z3.BoolSort()), n=n, count=num(0), total=None)
    G.x, G.size, G.lim = x, 2 * half, lim
    k = c.int("k")
    c.assume(And(k >= 0, k <= half))
    G.term = lambda i: ite(SBool(G.use(num(i).e)), SNum(per(num(i).e, k.e)), num(0.0))
    G.one = lambda i: ite(SBool(G.use(num(i).e)), num(1), num(0))
    G.total = num(0.0)

    def added(data_, window):
        i, t = G.i, c.int("t")
        c.assume(And(t >= 0, t < 2 * half))
        c.ensure("a record less its mean", And(num(data_.shape[0]) == 2 * half, num(data_.at(t)) == x(i, t) - mean(i)))
        c.ensure("the window that was asked for", num(as_arr(window).at(t)) == (W.at(t) if kind else 1) if window is not None else sbool(not kind))
        a, b = c.int("a"), c.int("b")
        c.assume(And(a >= 0, a < 2 * half, b >= 0, b < 2 * half))
        c.ensure("accepted records stay within the limit", x(i, a) - x(i, b) <= lim)
        G.count, G.total, G.now = G.count + 1, G.total + SNum(per(num(i).e, k.e)), True

    class P(Ghost):
        def __init__(self, mm, dt=1.0):
            self.m, self.m2, self.dt = mm, 2 * mm, dt
            c.ensure("spectrum of the records' length and sample time", And(num(mm) == half, dt == nr.timebase))

        def addDataSegment(self, data, window=None): added(data, window)
        def spectrum(self): return lazy((half + 1,), lambda q: G.total / G.count, F64)
        def frequencies(self, nbins=None): return lazy((half + 1,), lambda q: num(q) / (2 * self.dt * self.m), F64)
    m.mass = types.SimpleNamespace(mathstat=types.SimpleNamespace(power_spectrum=types.SimpleNamespace(PowerSpectrum=P)))
    seg = None if c.choose("whole records") else ns
    nr.compute_power_spectrum_reshape(window=win if kind else None, seg_length=seg, max_excursion=lim)
    c.ensure("number of segments", G.count == Sum(G.one, 0, n))
    c.ensure("each accepted record once", G.total == Sum(G.term, 0, n))
    c.assume(G.count > 0)
    c.ensure("stored: the average", And(num(nr.noise_psd.shape[0]) == half + 1, num(nr.noise_psd.at(k)) == G.total / G.count))
    c.cover("end")


def start_psd(e):
    """the record of this iteration; it counts as accepted when it is added"""
    G = ctx().ghost
    G.i, G.now = e._k, False
    return []


def inv_psd(e):
    c, G = ctx(), ctx().ghost
    if G.i is not None and c.provable(e._k == G.i + 1):
        c.assume(SBool(G.use(num(G.i).e)) == sbool(G.now))         # definition of `accepted`
        if not G.now:
            a, b = z3.Ints("a_ b_")
            A, B = SNum(a), SNum(b)
            c.ensure("only records that reach the limit are left out", SBool(z3.Exists([a, b], And(A >= 0, A < G.size, B >= 0, B < G.size, G.x(G.i, A) - G.x(G.i, B) >= G.lim).e)))
    yield ("segments added so far", G.count == Sum(G.one, 0, e._k))
    yield ("periodograms so far", G.total == Sum(G.term, 0, e._k))


def havoc_psd(c, e): c.ghost.count, c.ghost.total = c.int("count", lo=0), c.real("total")


def correlate(a, v, mode="valid"):
    """contract of numpy.correlate(a, v, 'full') for vectors of n: at n-1+k the sum of a[t+k] v[t]"""
    a, v = as_arr(a), as_arr(v)
    n, f, g = num(a.shape[0]), a.snap(), v.snap()
    if mode != "full":
        raise Unsupported("correlate: " + mode)
    ctx().ensure("vectors of one length are correlated", num(v.shape[0]) == n)

    def el(q):
        k = num(q) - (n - 1)
        up = Sum(lambda t: num(f(t + k)) * g(t), 0, n - k)
        if ctx().provable(k >= 0):
            return up
        return ite(k >= 0, up, Sum(lambda t: num(f(t)) * g(t - k), 0, n + k))
    return lazy((2 * n - 1,), el, F64)


def lagged(x, i, l, n):
    m = Sum(lambda t: num(x(i, t)), 0, n) / n
    return Sum(lambda t: (num(x(i, t + l)) - m) * (num(x(i, t)) - m), 0, n - l)


def h_broken(c):
    m = LOADC.load("mass.core.channel")
    NPREAL.setdefault("np", m.np)
    m.np = Np(correlate=correlate)
    nr, data, n, ns = noise(c, m)
    lim = c.real("max_excursion")
    l, x = c.int("lag"), (lambda i, t: num(data.at(i, t)) * 1.0)
    c.assume(And(l >= 0, l < ns))
    per = z3.Function(c.fname("lagged"), I, R)
    part = c.choose("part of the samples")
    lo, hi = (c.int("lo", lo=0), c.int("hi", lo=0)) if part else (num(0), n)
    if part:
        c.assume(And(lo <= hi, hi <= n))
    G = c.ghost = types.SimpleNamespace(i=None, use=z3.Function(c.fname("accepted"), I, z3.BoolSort()), x=x, l=l, ns=ns, lim=lim, lo=lo, per=per)
    G.term = lambda i: ite(SBool(G.use(num(i).e)), SNum(per(num(i).e)), num(0.0))
    G.one = lambda i: ite(SBool(G.use(num(i).e)), num(1), num(0))
    cnt = Sum(G.one, lo, hi)
    c.assume(cnt > 0)
    if part:
        for v in (lo, hi):
            c.ensure("division of a multiple", And(v * ns // ns == v, v * ns % ns == 0))
            c.assume(And(v * ns // ns == v, v * ns % ns == 0))
    nr._compute_broken_autocorrelation(n_lags=None if c.choose("all lags") else ns, data_samples=[lo * ns, hi * ns] if part else None, max_excursion=lim)
    c.ensure("stored: average over the accepted records of the lagged products per pair", num(nr.autocorrelation.at(l)) * (ns - l) * cnt == Sum(G.term, lo, hi))
    c.cover("end")


def start_broken(e):
    c, G = ctx(), ctx().ghost
    G.i = num(e._k) + G.lo
    G.before = num(e.ac.at(G.l))
    a, b = z3.Ints("a_ b_")
    A, B = SNum(a), SNum(b)
    over = SBool(z3.Exists([a, b], And(A >= 0, A < G.ns, B >= 0, B < G.ns, G.x(G.i, A) - G.x(G.i, B) > G.lim).e))
    return [SBool(G.use(G.i.e)) == Not(over), SNum(G.per(G.i.e)) == lagged(G.x, G.i, G.l, G.ns)]


def inv_broken(e):
    G = ctx().ghost
    yield ("records used so far", num(e.records_used) == Sum(G.one, G.lo, G.lo + e._k))
    yield ("lagged products so far", num(e.ac.at(G.l)) == Sum(G.term, G.lo, G.lo + e._k))


def h_pulses(c):
    m = module()
    m.np = Np(correlate=correlate)
    n, ns = c.int("records", lo=1), c.int("samples", lo=1)
    x = fresh(c, "x", (ns, n), rnp.float64)
    l = c.int("lag")
    c.assume(And(l >= 0, l < ns))
    old = x.snap()
    per = z3.Function(c.fname("lagged"), I, R)
    G = c.ghost = types.SimpleNamespace(x=lambda i, t: num(old(t, i)), l=l, ns=ns, per=per)
    r = m.autocorrelation_broken_from_pulses(x)
    c.ensure("average of the lagged products per pair", num(r.at(l)) * (ns - l) * n == Sum(lambda i: SNum(per(num(i).e)), 0, n))
    i, t = c.int("i"), c.int("t")
    c.assume(And(i >= 0, i < n, t >= 0, t < ns))
    c.ensure("the records are not changed", num(x.at(t, i)) == num(old(t, i)))
    c.cover("end")


def start_pulses(e):
    G = ctx().ghost
    return [SNum(G.per(num(e._k).e)) == lagged(G.x, e._k, G.l, G.ns)]


def inv_pulses(e):
    G = ctx().ghost
    yield ("lagged products so far", num(e.ac.at(G.l)) == Sum(lambda i: SNum(G.per(num(i).e)), 0, e._k))


HARNESSES = [
    Harness("PowerSpectrum: new", h_new, functions=[PS + "PowerSpectrum.__init__"]),
    Harness("addDataSegment", h_add, functions=[PS + "PowerSpectrum.addDataSegment"]),
    Harness("lemma: ones", h_ones),
    Harness("addLongData", h_long, functions=[PS + "PowerSpectrum.addLongData"], specs={("addLongData", 0): LoopSpec(inv_long, havoc=havoc_long)}),
    Harness("spectrum and frequencies", h_read, functions=[PS + "PowerSpectrum.spectrum", PS + "PowerSpectrum.frequencies"]),
    Harness("copy", h_copy, functions=[PS + "PowerSpectrum.copy"]),
    Harness("overlapping segments", h_overlap, functions=[PS + "PowerSpectrumOverlap.addDataSegment"]),
    Harness("computeSpectrum", h_convenience, functions=[PS + "computeSpectrum"]),
    Harness("noise power spectrum", h_psd, functions=[CH + "NoiseRecords.compute_power_spectrum_reshape"],
            specs={("compute_power_spectrum_reshape", 0): LoopSpec(inv_psd, body_lemma=start_psd, havoc=havoc_psd)}),
    Harness("autocorrelation of separate records", h_broken, functions=[CH + "NoiseRecords._compute_broken_autocorrelation"],
            specs={("_compute_broken_autocorrelation", 0): LoopSpec(inv_broken, body_lemma=start_broken, types={"ac": lambda c, e: fresh(c, "ac", c.ghost.ns, rnp.float64)})}),
    Harness("autocorrelation of given records", h_pulses, functions=[PS + "autocorrelation_broken_from_pulses"],
            specs={("autocorrelation_broken_from_pulses", 0): LoopSpec(inv_pulses, body_lemma=start_pulses, types={"ac": lambda c, e: fresh(c, "ac", c.ghost.ns, rnp.float64)})}),
]
