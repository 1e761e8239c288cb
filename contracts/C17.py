"""Optimal filters: unit response, no response to a constant, no weight where excluded, variance f'Rf"""
import types

import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of, SArr, as_arr
from loader import Loader
from harness import Harness
import sumlib
from sumlib import sum_eq, rev, split

FM = "mass/core/optimal_filtering.py:FilterMaker."
FF = "mass/core/optimal_filtering.py:"
LOAD = Loader()
F64 = dt_of(rnp.float64)
I, RS = z3.IntSort(), z3.RealSort()
FIT = tuple(tuple(x / 70.0 for x in r) for r in ((-6, 24, 34, 24, -6), (-14, -7, 0, 7, 14), (10, -5, -10, -5, 10)))
NP = {}


def fun(c, nm, k=1):
    F = z3.Function(c.fname(nm), *([I] * k), RS)
    return lambda *a: SNum(F(*[num(x).e for x in a]))


def parabola(conv):
    r = []
    for row in FIT:
        s = num(0.0)
        for w, q in zip(row, conv):
            s = s + w * q
        r.append(s)
    return r


class Np:
    def __init__(self, **over): self.__dict__["over"] = over

    def __getattr__(self, k):
        o = self.__dict__.get("over", {})
        return o[k] if k in o else getattr(NP["np"], k)


def module(**over):
    m = LOAD.load("mass.core.optimal_filtering")
    NP.setdefault("np", m.np)
    NP.setdefault("parts", {k: getattr(m, k) for k in ("band_limit", "bracketR", "ToeplitzSolver")})
    for k, v in NP["parts"].items():
        setattr(m, k, v)
    m.np = Np(**over)
    return m


# ---------------------------------------------------------------- the quadratic form
def inv_form(e):
    G = ctx().ghost
    return [("sum so far", num(e._d["dot"]) == Sum(lambda i: G.q(i) * G.row(i), 0, e._k))]


def body_form(e):
    c, G = ctx(), ctx().ghost
    i = e._k
    r = e._d["r"].snap()
    c.assume(sum_eq(c, "row of the matrix", lambda t: num(r(G.n - i - 1 + t)) * G.q(t), lambda t: G.a(i, t) * G.q(t), G.n))
    return [G.row(i) == Sum(lambda t: G.a(i, t) * G.q(t), 0, G.n)]


SPECB = {("bracketR", 0): LoopSpec(inv_form, body_lemma=body_form)}


def h_form(c):
    m = module()
    q = fresh(c, "q", c.int("n", lo=0), rnp.float64)
    noise = fresh(c, "noise", c.int("lags", lo=0), rnp.float64)
    n = num(q.shape[0])
    f, g = q.snap(), noise.snap()
    G = c.ghost = types.SimpleNamespace(n=n, q=lambda i: num(f(i)), a=lambda i, t: num(g(ite(i >= t, i - t, t - i))), row=fun(c, "row"))
    try:
        v = m.bracketR(q, noise)
    except ValueError:
        c.ensure("refused only when the noise is too short", num(noise.shape[0]) < n)
        return
    c.ensure("sum over all pairs of q_i R_|i-j| q_j", num(v) == Sum(lambda i: G.q(i) * G.row(i), 0, n))
    c.ensure("noise long enough", num(noise.shape[0]) >= n)
    c.cover("end")


# ---------------------------------------------------------------- normalisation
def maker(c, m, **kw):
    ns = c.int("samples", lo=1)
    s = object.__new__(m.FilterMaker)
    sig = fresh(c, "signal", ns, rnp.float64)
    d = dict(signal_model=sig, n_pretrigger=c.int("n_pretrigger", lo=0), noise_autocorr=None, noise_psd=None, dt_model=None, whitener=None,
             sample_time_sec=c.real("sample_time_sec"), peak=c.real("peak"))
    d.update(kw)
    for k, v in d.items():
        object.__setattr__(s, k, v)
    return s, ns, sig


def h_signal(c):
    m = module()
    s, ns, sig = maker(c, m)
    with_dt = c.choose("with derivative")
    if with_dt:
        object.__setattr__(s, "dt_model", fresh(c, "derivative", ns, rnp.float64))
        dt0 = s.dt_model.snap()
    a, b = c.int("cut_pre"), c.int("cut_post")
    npre = s.n_pretrigger
    c.assume(And(npre <= ns, ite(a < 0, ite(ns + a < 0, num(0), ns + a), a) < npre - 1))          # at least one sample for the baseline
    old = sig.snap()
    try:
        x, pk, dx = s._normalize_signal(a, b)
    except ValueError:
        c.ensure("refused only when cuts are negative or leave nothing", Or(a < 0, b < 0, a + b >= ns))
        return
    c.ensure("negative cuts and cuts of everything are refused", And(a >= 0, b >= 0, a + b < ns))
    base = Sum(lambda t: num(old(t + a)), 0, npre - 1 - a) / (npre - 1 - a)
    t, u = c.int("t"), c.int("u")
    n = ns - a - b
    c.assume(And(t >= 0, t < n, u >= 0, u < ns))
    c.ensure("only the kept samples", num(x.shape[0]) == n)
    lo, hi = c.int("at_lowest"), c.int("at_highest")
    c.ensure("no signal before the trigger", Implies(t + a < npre, num(x.at(t)) == 0))
    # scale: 1 / height, the height of the largest departure upwards, or downwards for pulses that go down
    k = c.real("scale")
    down = c.ghost_down = c.choose("goes down")
    whole = sig.max() if not down else sig.min()
    height = (num(whole) - base) if not down else (base - num(whole))
    kept = sig[a:ns - b]
    going = base - num(kept.min()) > num(kept.max()) - base
    c.assume(going if down else Not(going))
    c.assume(Not(height == 0))
    c.assume(k * height == 1)
    c.ensure("baseline out, unit height", Implies(t + a >= npre, num(x.at(t)) == (num(old(t + a)) - base) * k))
    c.ensure("nominal peak", num(pk) == ite(s.peak > 0, s.peak, (base - num(kept.min())) if down else (num(kept.max()) - base)))
    if with_dt:
        c.ensure("derivative in the same units", And(num(dx.shape[0]) == n, num(dx.at(t)) == num(dt0(t + a)) * k))
    else:
        c.ensure("no derivative", dx.shape[0] == 0)
    c.ensure("the model given is not changed", num(sig.at(u)) == num(old(u)))
    c.cover("end")


def polyfit(x, y, deg):
    """contract of numpy.polyfit at -2..2: the least-squares parabola (C16, lemma: least-squares parabola), highest power first"""
    x = [num(as_arr(x).at(i)) for i in range(5)]
    c = ctx()
    c.ensure("fitted at -2, -1, 0, 1, 2", And(deg == 2, num(as_arr(x).shape[0]) == 5, *[x[i] == i - 2 for i in range(5)]))
    p = parabola([num(as_arr(y).at(i)) for i in range(5)])
    return as_arr([p[2], p[1], p[0]])


def polyval(p, x):
    p = [num(as_arr(p).at(i)) for i in range(3)]
    return p[0] * (x * x) + p[1] * x + p[2]


def linspace(a, b, n):
    return as_arr([a + (b - a) * i / (n - 1) for i in range(n)])


def h_norm5(c):
    m = module(polyfit=polyfit, polyval=polyval, linspace=linspace)
    n = c.int("n", lo=1)
    L = c.int("length", lo=0)
    f, s = fresh(c, "f", n, rnp.float64), fresh(c, "signal", L, rnp.float64)
    old, g, gs = f.snap(), f.snap(), s.snap()
    conv = [Sum(lambda t: num(old(t)) * num(gs(t + j)), 0, n) for j in range(5)]
    p0, p1, p2 = parabola(conv)
    u = -0.5 * p1 / p2
    pk = p0 + p1 * u + p2 * (u * u)
    c.assume(And(Not(p2 == 0), Not(pk == 0)))
    try:
        m.FilterMaker._normalize_5lag_filter(f, s)
    except AssertionError:
        c.ensure("refused only when the signal is too short", L < n + 4)
        return
    t = c.int("t")
    c.assume(And(t >= 0, t < n))
    b = num(f.at(t)) == num(old(t)) * (1.0 / pk)
    b2 = with_same_quotients(b)
    c.ensure("divided by its response", b2 if c.provable(b2) else b)
    c.cover("end")


def h_norm5_lemma(c):
    """lemma: divided by its response, a filter has response 1: the parabola is linear in the five products"""
    conv, pk = [c.real(f"y{j}") for j in range(5)], c.real("response")
    new = [c.real(f"z{j}") for j in range(5)]
    for a, b in zip(conv, new):
        c.assume(b * pk == a)
    p, q = parabola(conv), parabola(new)
    for j in range(3):
        c.ensure(f"parabola term {j}", q[j] * pk == p[j])
    P, Q = [c.real(f"p{j}") for j in range(3)], [c.real(f"q{j}") for j in range(3)]
    u = c.real("vertex")
    c.assume(And(Not(pk == 0), Not(P[2] == 0), *[Q[j] * pk == P[j] for j in range(3)]))
    c.assume(And(u * P[2] == -0.5 * P[1], pk == P[0] + P[1] * u + P[2] * u * u))
    c.ensure("same vertex", (u * Q[2] + 0.5 * Q[1]) * pk == 0)
    c.ensure("response times response", (Q[0] + Q[1] * u + Q[2] * u * u) * pk == pk)
    c.cover("end")


def h_norm1(c):
    m = module()
    n = c.int("n", lo=1)
    f, s = fresh(c, "f", n, rnp.float64), fresh(c, "signal", c.int("length", lo=0), rnp.float64)
    old, g = f.snap(), s.snap()
    dot = Sum(lambda t: num(old(t)) * num(g(t)), 0, n)
    c.assume(Not(dot == 0))
    try:
        m.FilterMaker._normalize_filter(f, s)
    except AssertionError:
        c.ensure("refused only when the lengths differ", Not(num(s.shape[0]) == n))
        return
    t, k = c.int("t"), c.real("scale")
    c.assume(And(t >= 0, t < n, k * dot == 1))
    c.ensure("divided by its response", num(f.at(t)) == num(old(t)) * k)
    c.cover("end")


# ---------------------------------------------------------------- smoothing
class Spec(Ghost):
    """transform of a real array: terms 0 .. m-1, complex; the values of arithmetic between transforms are left open"""

    def __init__(self, re, im): self.re, self.im = re, im
    def slen(self): return self.re.shape[0]
    @property
    def shape(self): return self.re.shape

    def __setitem__(self, k, v):
        self.re[k] = v
        self.im[k] = num(0.0)

    def __itruediv__(self, o):
        if isinstance(o, Spec):
            return self.open_(self)
        return Spec(self.re / o, self.im / o)

    @staticmethod
    def open_(x): return transform("result", x.re.shape[0])
    def __truediv__(self, o): return Spec(self.re / o, self.im / o) if not isinstance(o, Spec) else self.open_(self)
    def __rtruediv__(self, o): return fresh(ctx(), "ratio", self.re.shape[0], rnp.float64)
    def __mul__(self, o): return Spec(self.re * o, self.im * o) if not isinstance(o, Spec) else self.open_(self)
    __rmul__ = __mul__
    def __abs__(self): return fresh(ctx(), "modulus", self.re.shape[0], rnp.float64)


def transform(nm, m): return Spec(fresh(ctx(), nm + "_re", m, rnp.float64), fresh(ctx(), nm + "_im", m, rnp.float64))


def rfft(x):
    """contract of numpy.fft.rfft used here: n//2+1 terms, term 0 is the sum"""
    x = as_arr(x)
    n, f = num(x.shape[0]), x.snap()
    r = transform("rfft", n // 2 + 1)
    ctx().note_assumption("numpy.fft.rfft has n//2+1 terms, term 0 the sum; numpy.fft.irfft(S, n) has n values (2(len(S)-1) by default) whose sum is the real part of term 0")
    ctx().assume(num(r.re.at(0)) == Sum(lambda t: num(f(t)), 0, n))
    return r


def irfft(S, n=None):
    m = num(S.slen())
    n = 2 * (m - 1) if n is None else num(n)
    r = fresh(ctx(), "irfft", n, rnp.float64)
    ctx().assume(Sum(lambda t: num(r.at(t)), 0, n) == (num(S.re.at(0)) if isinstance(S, Spec) else num(S.at(0))))
    return r


def fftfreq(n, d=1.0):
    n, d = num(n), num(d)
    if d == 0:
        raise ZeroDivisionError("float division by zero")
    return lazy((n,), lambda k: ite(num(k) <= (n - 1) // 2, num(k), num(k) - n) / (n * d), F64)


def np_abs(x): return abs(x) if isinstance(x, Spec) else NP["np"].abs(x)


FFT = types.SimpleNamespace(rfft=rfft, irfft=irfft, fftfreq=fftfreq)


def smooth_args(c):
    fmax = c.real("fmax") if c.choose("fmax") else None
    f3 = c.real("f_3db") if c.choose("f_3db") else None
    for x in (fmax, f3):
        if x is not None:
            c.assume(x > 0)
    return fmax, f3


def h_smooth(c):
    m = module(fft=FFT, abs=np_abs)
    n = c.int("n", lo=1)
    v = fresh(c, "v", n, rnp.float64)
    old = v.snap()
    fmax, f3 = smooth_args(c)
    dt = c.real("dt")
    c.assume(dt > 0)
    m.band_limit(v, dt, fmax, f3)
    t = c.int("t")
    c.assume(And(t >= 0, t < n))
    if fmax is None and f3 is None:
        c.ensure("nothing happens without smoothing", num(v.at(t)) == num(old(t)))
    c.ensure("length", num(v.shape[0]) == n)
    c.ensure("the sum is kept", Sum(lambda t: num(v.at(t)), 0, n) == Sum(lambda t: num(old(t)), 0, n))
    c.cover("end")


def inv_cols(e):
    G = ctx().ghost
    mm = e._d["modelmatrix"]
    return [("columns so far", forall(lambda t, j: Implies(And(t >= 0, t < G.n, j >= 0, j < G.k),
                                                           num(mm.at(t, j)) == ite(j < e._k, SNum(G.F(num(j).e, num(t).e)), num(G.old(t, j)))), n=2))]


def body_cols(e):
    ctx().ghost.j = e._k
    return []


SPECL = {("band_limit", 0): LoopSpec(inv_cols, body_lemma=body_cols, stores=("modelmatrix",))}


def h_smooth_columns(c):
    m = module(fft=FFT, abs=np_abs)
    n, k = c.int("n", lo=1), c.int("k", lo=0)
    v = fresh(c, "v", (n, k), rnp.float64)
    G = c.ghost = types.SimpleNamespace(n=n, k=k, old=v.snap(), F=z3.Function(c.fname("smoothed"), I, I, RS), j=None)
    fmax, dt = c.real("fmax"), c.real("dt")
    real = m.band_limit

    def one(col, d, a, b):
        t = c.int("t")
        c.assume(And(t >= 0, t < n))
        c.ensure("a column of the matrix, same settings", And(num(col.shape[0]) == n, num(col.at(t)) == num(G.old(t, G.j)), d is dt, a is fmax, b is None))
        j = G.j
        col[:] = lazy((n,), lambda t: SNum(G.F(num(j).e, num(t).e)), F64)
    m.band_limit = one
    try:
        real(v, dt, fmax, None)
    finally:
        m.band_limit = real
    t, j = c.int("t"), c.int("j")
    c.assume(And(t >= 0, t < n, j >= 0, j < k))
    c.ensure("each column smoothed", num(v.at(t, j)) == SNum(G.F(j.e, t.e)))
    c.cover("end")


# ---------------------------------------------------------------- building the filters from the parts' contracts
class Parts:
    """the functions a filter is built from, by their contracts (above and C18); records what they were given"""

    def __init__(self, c, m, ns, a, b, derivative=False):
        self.c, self.m = c, m
        self.calls = []
        self.n0 = ns - a - b
        self.s = fresh(c, "standard", self.n0, rnp.float64)
        self.e = fresh(c, "standard_derivative", self.n0 if derivative else 0, rnp.float64)
        self.pk = c.real("nominal_peak")
        self.k = c.real("normalisation")
        self.var = c.real("variance")
        self.sums = []
        P = self

        def signal(cut_pre=0, cut_post=0):
            c.ensure("the cuts asked for", And(num(cut_pre) == a, num(cut_post) == b))
            if Or(a < 0, b < 0, a + b >= ns):
                raise ValueError("cuts")
            return P.s, P.pk, P.e

        class Solver:
            def __init__(self, T, symmetric=True):
                self.T = T
                self.f = as_arr(T).snap()
                c.ensure("symmetric matrix", symmetric is True)

            def __call__(self, y):
                x = fresh(c, "solved", as_arr(y).shape[0], rnp.float64)
                P.calls.append(("solve", self, as_arr(y).snap(), x.snap()))
                return x

        def limit(mm, dt, fmax, f_3db):
            if fmax is None and f_3db is None:
                return
            mm = as_arr(mm)
            P.calls.append(("smooth",))
            if mm.ndim == 1:
                before = Sum((lambda f: lambda t: num(f(t)))(mm.snap()), 0, mm.shape[0])
                r = fresh(c, "smoothed", mm.shape[0], rnp.float64)
                c.assume(Sum(lambda t: num(r.at(t)), 0, mm.shape[0]) == before)
                mm[:] = r
            else:
                for j in range(mm.shape[1]):
                    before = Sum((lambda f: lambda t: num(f(t, j)))(mm.snap()), 0, mm.shape[0])
                    r = fresh(c, "smoothed", mm.shape[0], rnp.float64)
                    c.assume(Sum((lambda r: lambda t: num(r.at(t)))(r), 0, mm.shape[0]) == before)
                    mm[:, j] = r

        def form(q, noise):
            if num(as_arr(noise).shape[0]) < num(as_arr(q).shape[0]):
                raise ValueError("noise too short")
            P.calls.append(("form", as_arr(q).snap(), as_arr(noise).snap(), num(as_arr(q).shape[0])))
            return P.var

        def norm5(f, avg):
            assert num(f.shape[0]) <= num(avg.shape[0]) - 4
            P.calls.append(("norm5", f.snap(), avg.snap(), num(f.shape[0])))
            f *= P.k
        m.ToeplitzSolver, m.band_limit, m.bracketR = Solver, limit, form
        self.over = dict(_normalize_signal=signal, _normalize_5lag_filter=norm5)

    def install(self, s):
        for k, v in self.over.items():
            object.__setattr__(s, k, v)


class Whitener(Ghost):
    """whitening by its contract (C18): applyWT is the adjoint of whitening"""

    def __init__(self, c, P): self.c, self.P = c, P
    def new(self, nm, v, key):
        v = as_arr(v)
        x = fresh(self.c, nm, v.shape, rnp.float64)
        self.P.calls.append((key, v.snap(), x.snap()))
        return x

    def __call__(self, v): return self.new("whitened", v, "W")
    def applyWT(self, v): return self.new("transposed", v, "WT")
    def solveWT(self, v): return self.new("unwhitened", v, "WTinv")


def common(c, m, kind, derivative=False):
    w = c.choose("whitener only")
    noise = None if w else fresh(c, "noise", c.int("lags", lo=0), rnp.float64)
    a, b = c.int("cut_pre"), c.int("cut_post")
    s, ns, sig = maker(c, m, noise_autocorr=noise)
    c.assume(ns >= 1)
    P = Parts(c, m, ns, a, b, derivative)
    P.install(s)
    if w:
        object.__setattr__(s, "whitener", Whitener(c, P))
    fmax, f3 = smooth_args(c)
    return s, ns, a, b, P, w, noise, fmax, f3


def resolving(P, f):
    c = P.c
    q = 8 * rnp.log(2) * num(f.variance)
    r = num(P.pk) / sqrt(q)
    c.ensure("resolving power from peak and variance", num(f.predicted_v_over_dv) == r)
    c.ensure("nominal peak", num(f.nominal_peak) == P.pk)


def excluded(c, f, a, b, total):
    t = c.int("t")
    c.assume(And(t >= 0, t < total))
    c.ensure("length", num(f.shape[0]) == total)
    c.ensure("no weight where excluded", Implies(Or(t < a, t >= total - b), num(f.at(t)) == 0))
    return t


def h_five(c):
    m = module()
    s, ns, a, b, P, w, noise, fmax, f3 = common(c, m, "5lag")
    c.assume(ns - a - b > 4)
    try:
        f = s.compute_5lag(fmax=fmax, f_3db=f3, cut_pre=a, cut_post=b)
    except ValueError:
        c.ensure("refused only for cuts out of range or smoothing without a sample time",
                 Or(a < 0, b < 0, a + b >= ns, And(s.sample_time_sec <= 0, fmax is not None or f3 is not None)))
        return
    except AssertionError:
        c.ensure("refused only when the noise is too short", And(not w, num(noise.shape[0]) < ns - 4 - a - b) if not w else False)
        return
    c.ensure("cuts in range", And(a >= 0, b >= 0))
    n, total = ns - a - b - 4, ns - 4
    t = excluded(c, f.values, a, b, total)
    norm = [x for x in P.calls if x[0] == "norm5"]
    c.ensure("normalised once", len(norm) == 1)
    before, avg = norm[0][1], norm[0][2]
    c.ensure("normalised to the standard pulse", And(norm[0][3] == n, num(avg(t)) == P.s.at(t)))
    c.ensure("the weights are the normalised ones", Implies(And(t >= a, t < total - b), num(f.values.at(t)) == num(before(t - a)) * P.k))
    c.ensure("insensitive to a constant", Sum(lambda t: num(before(t)) * P.k, 0, n) == 0)
    u = c.int("u")
    c.assume(And(u >= 0, u < n))
    if w:
        W, WT = [x for x in P.calls if x[0] == "W"], [x for x in P.calls if x[0] == "WT"]
        c.ensure("pulse and constant whitened, and transposed back", len(W) == 2 and len(WT) == 2)
        c.ensure("whitened: the pulse and a constant", And(num(W[0][1](u)) == P.s.at(u + 2), num(W[1][1](u)) == 1))
        c.ensure("transposed: the whitened", And(*[num(WT[i][1](u)) == num(W[i][2](u)) for i in range(2)]))
        x, y = WT[0][2], WT[1][2]
        q = [z for z in P.calls if z[0] == "WTinv"]
        c.ensure("variance of the final weights", And(len(q) == 1, num(q[0][1](u)) == num(before(u)) * P.k,
                                                     num(f.variance) == Sum(lambda t: num(q[0][2](t)) * num(q[0][2](t)), 0, n)))
    else:
        sol = [x for x in P.calls if x[0] == "solve"]
        c.ensure("solved twice with the noise matrix", And(len(sol) == 2, *[And(num(z[1].f(u)) == noise.at(u), num(as_arr(z[1].T).shape[0]) == n) for z in sol]))
        c.ensure("solved for the pulse and a constant", And(num(sol[0][2](u)) == P.s.at(u + 2), num(sol[1][2](u)) == 1))
        x, y = sol[0][3], sol[1][3]
        q = [z for z in P.calls if z[0] == "form"]
        c.ensure("variance of the final weights", And(len(q) == 1, num(q[0][1](u)) == num(before(u)) * P.k, num(q[0][2](u)) == noise.at(u), q[0][3] == n, num(f.variance) == P.var))
    if fmax is None and f3 is None:
        c.ensure("optimal weights ignoring a constant", num(before(u)) == Sum(lambda t: num(y(t)), 0, n) * num(x(u)) - Sum(lambda t: num(x(t)), 0, n) * num(y(u)))
    resolving(P, f)
    c.ensure("settings recorded", And(f.convolution_lags == 5, num(f.cut_pre) == a, num(f.cut_post) == b, f.fmax is fmax, f.f_3db is f3))
    c.cover("end")


# ---------------------------------------------------------------- arrival-time-safe filters
def inverse(P):
    """np.linalg.inv of a 3x3 matrix: B A = 1 (singular matrices are refused by it)"""
    def inv(A):
        A = as_arr(A)
        c = P.c
        c.ensure("a 3x3 matrix to invert", tuple(A.shape) == (3, 3))
        B = fresh(c, "inverse", (3, 3), rnp.float64)
        P.A = [[num(A.at(i, j)) for j in range(3)] for i in range(3)]
        P.B = [[num(B.at(i, j)) for j in range(3)] for i in range(3)]
        for i in range(3):
            for j in range(3):
                c.assume(sum((P.B[i][k] * P.A[k][j] for k in range(1, 3)), P.B[i][0] * P.A[0][j]) == (1.0 if i == j else 0.0))
        return B
    return inv


def h_ats(c):
    m = module()
    s, ns, a, b, P, w, noise, fmax, f3 = common(c, m, "ats", derivative=True)
    if c.choose("nothing excluded"):
        c.assume(And(a == 0, b == 0))
    else:
        c.assume(Or(a != 0, b != 0))
    m.np = Np(linalg=types.SimpleNamespace(inv=inverse(P)))
    object.__setattr__(s, "dt_model", None if c.choose("no arrival-time model") else P.e)
    try:
        f = s.compute_ats(fmax=fmax, f_3db=f3, cut_pre=a, cut_post=b)
    except ValueError:
        c.ensure("refused only for cuts out of range, no arrival-time model, noise too short",
                 Or(s.dt_model is None, a < 0, b < 0, a + b >= ns, (not w) and num(noise.shape[0]) < ns))
        return
    except AssertionError:
        c.ensure("refused only when the noise is too short", (not w) and num(noise.shape[0]) < ns - a - b)
        return
    c.ensure("cuts in range, arrival-time model known", And(a >= 0, b >= 0, s.dt_model is not None))
    n = ns - a - b
    fs = (f.values, f.dt_values, f.const_values)
    t = c.int("t")
    c.assume(And(t >= 0, t < ns))
    model = (lambda t: P.s.at(t), lambda t: P.e.at(t), lambda t: num(1.0))
    u = c.int("u")
    c.assume(And(u >= 0, u < n))
    for i, nm in enumerate(("pulse", "arrival time", "baseline")):
        c.ensure(nm + " filter: length", num(fs[i].shape[0]) == ns)
        c.ensure(nm + " filter: no weight where excluded", Implies(Or(t < a, t >= ns - b), num(fs[i].at(t)) == 0))
    if w:
        W, WT = [x for x in P.calls if x[0] == "W"], [x for x in P.calls if x[0] == "WT"]
        c.ensure("whitened once, transposed once", len(W) == 1 and len(WT) == 1)
        for j in range(3):
            c.ensure("whitened: pulse, derivative, constant", num(W[0][1](u, j)) == model[j](u))
            c.ensure("transposed: the whitened", num(WT[0][1](u, j)) == num(W[0][2](u, j)))
        x = [(lambda j: lambda t: num(WT[0][2](t, j)))(j) for j in range(3)]
        # contract of the whitener (C18): <W' p, m> = <p, W m>
        ww = [(lambda j: lambda t: num(W[0][2](t, j)))(j) for j in range(3)]
        for i in range(3):
            for j in range(3):
                c.assume(Sum(lambda t: x[i](t) * model[j](t), 0, n) == Sum(lambda t: ww[i](t) * ww[j](t), 0, n))
    else:
        sol = [z for z in P.calls if z[0] == "solve"]
        c.ensure("solved three times with the noise matrix", And(len(sol) == 3, *[And(num(z[1].f(u)) == noise.at(u), num(as_arr(z[1].T).shape[0]) == n) for z in sol]))
        for j in range(3):
            c.ensure("solved for: pulse, derivative, constant", num(sol[j][2](u)) == model[j](u))
        x = [(lambda j: lambda t: num(sol[j][3](t)))(j) for j in range(3)]
        # contract of the solver (C18) with the lemma below: <x_i, R x_j> = <R x_i, x_j>
        for i in range(3):
            for j in range(3):
                c.assume(Sum(lambda t: x[i](t) * model[j](t), 0, n) == Sum(lambda t: model[i](t) * x[j](t), 0, n))
    smooth = [z for z in P.calls if z[0] == "smooth"]
    if fmax is None and f3 is None:
        for i in range(3):
            combination = lambda t: P.B[i][0] * x[0](t) + P.B[i][1] * x[1](t) + P.B[i][2] * x[2](t)
            c.ensure("weights within the record", num(fs[i].at(u + a)) == combination(u))
            for j in range(3):
                c.ensure("response of filter %d to model %d" % (i, j), Sum(lambda t: combination(t) * model[j](t), 0, n) == (1.0 if i == j else 0.0))
    else:
        c.ensure("smoothed once, all three together", len(smooth) == 1)
    v = lambda t: num(fs[0].at(t))
    if w:
        q = [z for z in P.calls if z[0] == "WTinv"]
        c.ensure("variance of the pulse filter", And(len(q) == 1, num(q[0][1](t)) == v(t), num(f.variance) == Sum(lambda t: num(q[0][2](t)) * num(q[0][2](t)), 0, ns)))
    else:
        q = [z for z in P.calls if z[0] == "form"]
        c.ensure("variance of the pulse filter", And(len(q) == 1, num(q[0][1](t)) == v(t), num(q[0][2](t)) == noise.at(t), q[0][3] == ns, num(f.variance) == P.var))
    resolving(P, f)
    c.ensure("settings recorded", And(f.convolution_lags == 1, num(f.cut_pre) == a, num(f.cut_post) == b, f.fmax is fmax, f.f_3db is f3))
    c.cover("end")


def h_fourier(c):
    """values of the transforms are left open: whatever they are, term 0 is dropped and the result normalised"""
    m = module(fft=FFT, abs=np_abs)
    a, b = c.int("cut_pre"), c.int("cut_post")
    s, ns, sig = maker(c, m, noise_autocorr=fresh(c, "noise", c.int("lags", lo=0), rnp.float64) if c.choose("noise autocorrelation known") else None)
    c.assume(ns > 4)
    psd = fresh(c, "psd", c.int("frequencies", lo=3), rnp.float64)
    object.__setattr__(s, "noise_psd", None if c.choose("no spectrum") else psd)
    P = Parts(c, m, ns, a, b)
    P.install(s)
    fmax, f3 = smooth_args(c)
    c.assume(Not(s.sample_time_sec == 0))
    n = num(psd.shape[0])
    try:
        f = s.compute_fourier(fmax=fmax, f_3db=f3, cut_pre=a, cut_post=b)
    except ValueError:
        c.ensure("refused only without a spectrum, for cuts, or when lengths disagree",
                 Or(s.noise_psd is None, a < 0, b < 0, Not((ns - 4) // 2 + 1 == n - 2), s.noise_autocorr is not None and num(s.noise_autocorr.shape[0]) < ns - 4))
        return
    except NotImplementedError:
        c.ensure("not implemented: cuts", Or(a > 0, b > 0))
        return
    c.ensure("no cuts, spectrum known", And(a == 0, b == 0, s.noise_psd is not None))
    norm = [x for x in P.calls if x[0] == "norm5"]
    c.ensure("normalised once", len(norm) == 1)
    before, avg, total = norm[0][1], norm[0][2], norm[0][3]
    t = c.int("t")
    c.assume(And(t >= 0, t < total))
    c.ensure("length: two per term", And(num(f.values.shape[0]) == 2 * (n - 3), total == 2 * (n - 3)))
    c.ensure("normalised to the standard pulse", And(num(avg(t)) == P.s.at(t)))
    c.ensure("the weights are the normalised ones", num(f.values.at(t)) == num(before(t)) * P.k)
    c.ensure("insensitive to a constant", Sum(lambda t: num(before(t)) * P.k, 0, total) == 0)
    if s.noise_autocorr is not None:
        q = [z for z in P.calls if z[0] == "form"]
        noise = s.noise_autocorr
        c.ensure("variance of the final weights", And(len(q) == 1, num(q[0][1](t)) == num(f.values.at(t)), num(q[0][2](t)) == noise.at(t), q[0][3] == total, num(f.variance) == P.var))
        resolving(P, f)
    c.ensure("settings recorded", And(f.convolution_lags == 5, f.fmax is fmax, f.f_3db is f3))
    c.cover("end")


def h_symmetric_lemma(c):
    """<R x, y> = <x, R y> for a symmetric matrix: exchange of the two sums, by induction on the rows; inner sums
    over all n columns.  left(M) = Sum_{t<M} y(t) (R x)(t),  right(M) = Sum_{s<n} x(s) Sum_{t<M} R(s,t) y(t)"""
    R, x, y = fun(c, "R", 2), fun(c, "x"), fun(c, "y")
    n, M = c.int("n", lo=0), c.int("M", lo=0)
    Z0, Z1, Rx = fun(c, "below"), fun(c, "below_next"), fun(c, "Rx")
    left = lambda M: Sum(lambda t: y(t) * Rx(t), 0, M)
    zero = Sum(lambda s: x(s) * Sum(lambda t: R(s, t) * y(t), 0, num(0)), 0, n)
    s = c.int("s")
    c.assume(And(s >= 0, s < n))
    Sum(lambda t: R(s, t) * y(t), 0, num(0))
    c.ensure("one more row", Sum(lambda t: R(s, t) * y(t), 0, M + 1) == Sum(lambda t: R(s, t) * y(t), 0, M) + R(s, M) * y(M))
    c.assume(left(M) == Sum(lambda s: x(s) * Z0(s), 0, n))
    c.assume(Rx(M) == Sum(lambda s: R(M, s) * x(s), 0, n))
    c.assume(sum_eq(c, "terms with one more row", lambda s: x(s) * Z1(s), lambda s: x(s) * Z0(s) + y(M) * (R(M, s) * x(s)), n,
                    given=lambda s: [Z1(s) == Z0(s) + R(s, M) * y(M), R(s, M) == R(M, s)]))
    c.ensure("step", left(M + 1) == Sum(lambda s: x(s) * Z1(s), 0, n))
    c.cover("end")


HARNESSES = list(sumlib.HARNESSES) + [
    Harness("bracketR", h_form, functions=[FF + "bracketR"], specs=SPECB),
    Harness("normalize_signal", h_signal, functions=[FM + "_normalize_signal"]),
    Harness("normalize_5lag_filter", h_norm5, functions=[FM + "_normalize_5lag_filter"]),
    Harness("lemma: unit response", h_norm5_lemma),
    Harness("normalize_filter", h_norm1, functions=[FM + "_normalize_filter"]),
    Harness("band_limit", h_smooth, functions=[FF + "band_limit"]),
    Harness("band_limit: columns", h_smooth_columns, functions=[FF + "band_limit"], specs=SPECL),
    Harness("compute_5lag", h_five, functions=[FM + "compute_5lag", FM + "_compute_autocorr"]),
    Harness("compute_ats", h_ats, functions=[FM + "compute_ats", FM + "_compute_autocorr"]),
    Harness("lemma: symmetric form", h_symmetric_lemma),
    Harness("compute_fourier", h_fourier, functions=[FM + "compute_fourier"]),
]
