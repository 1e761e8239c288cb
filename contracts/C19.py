import numpy as rnp
import z3
from pyvc import *
import symnp
from symnp import fresh, SArr, sort_, BOOL, INT, REAL
from loader import Loader
from harness import Harness

EN = "mass/mathstat/entropy.pyx:"
RB = "mass/mathstat/robust.pyx:"
SPECM, SPECH, SPECQ = {}, {}, {}
LOADM, LOADH, LOAD = Loader(), Loader(), Loader()


def idx(c, n, nm="k"):
    k = c.int(nm)
    c.assume(And(k >= 0, k < n))
    return k


def ascending(c, a, n):
    c.assume(forall(lambda p, q: Implies(And(p >= 0, p <= q, q < n), a.at(p) <= a.at(q)), n=2, pats=lambda p, q: (a.at(p), a.at(q))))


# ---------------------------------------------------------------- merging
class Flags(SArr):
    """boolean array with a ghost: cnt[t] = number of True among the first t flags (checked by an obligation at the end)"""

    def __init__(self, c, n):
        a = fresh(c, "wf", n, rnp.dtype(bool))
        SArr.__init__(self, a.shape, a.store, a._dt)
        self.cnt = fresh(c, "cnt", n + 1, rnp.int64)
        self.cnt[0] = 0

    def __setitem__(self, k, v):
        SArr.__setitem__(self, k, v)
        one = 1 if v else 0
        if isinstance(k, slice):
            if k.stop is not None or k.step is not None:
                raise Unsupported("flag slice store")
            old = self.cnt.store.fn
            k0 = k.start
            self.cnt.store.write(lambda i: num(i[0]) > k0, lambda i: num(old((k0,))) + one * (num(i[0]) - k0))
        else:
            self.cnt[k + 1] = self.cnt[k] + one


def merged(c, upto, out, wf, x1, x2):
    cnt = wf.cnt
    return [("count", And(cnt.at(0) == 0, forall(lambda t: Implies(And(t >= 0, t < upto), And(cnt.at(t + 1) == cnt.at(t) + num(wf.at(t)), cnt.at(t) >= 0, cnt.at(t) <= t)), pats=lambda t: (cnt.at(t), wf.at(t), out.at(t))))),
            ("origin", forall(lambda t: Implies(And(t >= 0, t < upto), out.at(t) == ite(wf.at(t), x1.at(cnt.at(t)), x2.at(t - cnt.at(t)))), pats=lambda t: (out.at(t), wf.at(t))))]


def h_merge(c):
    m = LOADM.load("mass.mathstat.entropy")
    n1, n2 = c.int("n1", lo=1), c.int("n2", lo=1)
    x1, x2 = fresh(c, "x1", n1, rnp.float64), fresh(c, "x2", n2, rnp.float64)
    ascending(c, x1, n1)
    ascending(c, x2, n2)
    out = fresh(c, "out", n1 + n2, rnp.float64)
    wf = Flags(c, n1 + n2)
    c.ghost = (out, wf, x1, x2, n1, n2)
    m._merge_orderedlists_arrays(out, wf, x1, x2)
    cnt = wf.cnt
    t = idx(c, n1 + n2, "t")
    c.ensure("flags are counted", And(cnt.at(0) == 0, cnt.at(t + 1) == cnt.at(t) + num(wf.at(t))))
    c.ensure("all of the first list is used", cnt.at(n1 + n2) == n1)
    c.ensure("each value comes from the list its flag names, in order", out.at(t) == ite(wf.at(t), x1.at(cnt.at(t)), x2.at(t - cnt.at(t))))
    c.ensure("positions are within the lists", And(cnt.at(t) >= 0, t - cnt.at(t) >= 0, Implies(wf.at(t), cnt.at(t) < n1), Implies(Not(wf.at(t)), t - cnt.at(t) < n2)))
    c.ensure("ascending", Implies(t + 1 < n1 + n2, out.at(t) <= out.at(t + 1)))
    c.cover("end")


def inv_merge(e):
    c = ctx()
    out, wf, x1, x2, n1, n2 = c.ghost
    i, j, k = e.i, e.j, e.k
    cnt = wf.cnt
    return [("range", And(i >= 0, i < n1, j >= 0, j < n2, k == i + j, cnt.at(k) == i))] + merged(c, k, out, wf, x1, x2) + [
        ("bounds", forall(lambda t: Implies(And(t >= 0, t < k), And(out.at(t) <= x1.at(i), out.at(t) <= x2.at(j), cnt.at(t) <= i, t - cnt.at(t) <= j, Implies(wf.at(t), cnt.at(t) < i), Implies(Not(wf.at(t)), t - cnt.at(t) < j))), pats=lambda t: (out.at(t), wf.at(t), cnt.at(t)))),
        ("ascending", forall(lambda t: Implies(And(t >= 0, t + 1 < k), out.at(t) <= out.at(t + 1)), pats=lambda t: out.at(t)))]


SPECM[("_merge_orderedlists_arrays", 0)] = LoopSpec(inv_merge)


def h_mergetop(c):
    L = Loader()
    m = L.load("mass.mathstat.entropy")
    n1, n2 = c.int("n1", lo=0), c.int("n2", lo=0)
    x1, x2 = fresh(c, "x1", n1, rnp.float64), fresh(c, "x2", n2, rnp.float64)
    calls = []

    def callee(out, wf, a, b):
        r, w = fresh(c, "r", n1 + n2, rnp.float64), fresh(c, "w", n1 + n2, rnp.dtype(bool))
        calls.append((num(out.shape[0]), num(wf.shape[0]), a.copy(), b.copy(), r, w))
        out[:] = r
        wf[:] = w
    m._merge_orderedlists_arrays = callee
    try:
        out, wf = m._merge_orderedlists(x1, x2)
    except ValueError:
        c.ensure("refused only for two empty lists", And(n1 == 0, n2 == 0))
        return
    c.ensure("not both empty", n1 + n2 > 0)
    t = idx(c, n1 + n2, "t")
    c.ensure("length", And(num(out.shape[0]) == n1 + n2, num(wf.shape[0]) == n1 + n2))
    if calls:
        o, w, a, b, r, rw = calls[0]
        k, l = idx(c, n1, "p"), idx(c, n2, "q")
        c.ensure("callee gets both lists and room for the result", And(len(calls) == 1, o == n1 + n2, w == n1 + n2, num(a.shape[0]) == n1, num(b.shape[0]) == n2, a.at(k) == x1.at(k), b.at(l) == x2.at(l)))
        c.ensure("callee is only given non-empty lists", And(n1 > 0, n2 > 0))
        c.ensure("its result is returned", And(out.at(t) == r.at(t), Iff(wf.at(t), rw.at(t))))
    else:
        c.ensure("one list empty: the other is returned", Or(And(n2 == 0, out.at(t) == x1.at(t), wf.at(t)), And(n1 == 0, out.at(t) == x2.at(t), Not(wf.at(t)))))


# ---------------------------------------------------------------- weighted high median
def prefix(c, name, f, n):
    """ghost prefix sums of non-negative f; monotone by the induction proved in 'lemma: prefix sums'"""
    S = z3.Function(c.fname(name), z3.IntSort(), z3.RealSort())
    s = lambda k: SNum(S(num(k).e))
    c.axiom(s(0) == 0)
    c.axiom(forall(lambda k: Implies(And(k >= 0, k < n), s(k + 1) == s(k) + f(k)), pats=lambda k: f(k)))
    c.axiom(forall(lambda a, b: Implies(And(a >= 0, a <= b, b <= n), s(a) <= s(b)), n=2, pats=lambda a, b: (s(a), s(b))))
    return s


def h_prefix(c):
    """for f >= 0 and s(k+1) = s(k) + f(k): s(a) <= s(a+d) by induction on d"""
    S, F = z3.Function(c.fname("S"), z3.IntSort(), z3.RealSort()), z3.Function(c.fname("F"), z3.IntSort(), z3.RealSort())
    a, d = z3.Ints("a d")
    A, D = SNum(a), SNum(d)
    s, f = (lambda k: SNum(S(num(k).e))), (lambda k: SNum(F(num(k).e)))
    c.ensure("base", s(A) <= s(A + 0))
    c.assume(And(D >= 0, s(A) <= s(A + D), s(A + D + 1) == s(A + D) + f(A + D), f(A + D) >= 0))
    c.ensure("step", s(A) <= s(A + D + 1))


def h_high(c):
    m = LOADH.load("mass.mathstat.robust")
    n = c.int("n", lo=1)
    w = fresh(c, "w", n, rnp.float64)
    P = fresh(c, "sort_idx", n, rnp.int64)
    c.assume(forall(lambda k: Implies(And(k >= 0, k < n), w.at(k) >= 0), pats=lambda k: w.at(k)))
    c.assume(forall(lambda k: Implies(And(k >= 0, k < n), And(P.at(k) >= 0, P.at(k) < n)), pats=lambda k: P.at(k)))
    W = prefix(c, "W", lambda k: w.at(k), n)
    S = prefix(c, "S", lambda k: w.at(P.at(k)), n)
    c.note_assumption("the sum of all weights does not depend on the order of summation")
    c.axiom(S(n) == W(n))
    c.assume(W(n) > 0)
    c.ghost = (n, w, P, W, S)
    r = m._high_median(P, w, n)
    T = z3.Function(c.fname("pos"), z3.IntSort(), z3.IntSort())
    k = c.int("k0")
    c.ensure("the first position whose cumulative weight exceeds half", exists_pos(c, r, P, n, S))
    c.cover("end")


def exists_pos(c, r, P, n, S):
    t = z3.Int(c.fname("t"))
    k = SNum(t)
    body = And(k >= 0, k < n, P.at(k) == r, S(k) * 2 <= S(n), S(k + 1) * 2 > S(n))
    return SBool(z3.Exists([t], body.e))


def inv_tot(e):
    n, w, P, W, S = ctx().ghost
    return [("total", e.total_weight == W(e._k))]


def inv_bis(e):
    n, w, P, W, S = ctx().ghost
    return [("range", And(e.imin >= 0, e.imin < e.imax, e.imax <= n, e.itrial == (e.imin + e.imax) // 2)),
            ("left", And(e.left_weight == S(e.imin), e.left_weight <= e.half_weight)),
            ("right", And(e.right_weight == S(n) - S(e.imax), S(e.imax) > e.half_weight))]


def inv_l(e):
    n, w, P, W, S = ctx().ghost
    return [("left part", e.trial_left_weight == S(e.imin + e._k) - S(e.imin))]


def inv_r(e):
    n, w, P, W, S = ctx().ghost
    return [("right part", e.trial_right_weight == S(e.itrial + 1 + e._k) - S(e.itrial + 1))]


SPECH[("_high_median", 0)] = LoopSpec(inv_tot)
SPECH[("_high_median", 1)] = LoopSpec(inv_bis)
SPECH[("_high_median", 2)] = LoopSpec(inv_l)
SPECH[("_high_median", 3)] = LoopSpec(inv_r)


def h_hightop(c):
    L = Loader()
    m = L.load("mass.mathstat.robust")
    n = c.int("n", lo=1)
    x = fresh(c, "x", n, rnp.float64)
    given = c.choose("weights given")
    w = fresh(c, "w", n, rnp.float64) if given else None
    calls = []
    pos = idx(c, n, "pos")

    def callee(P, ww, nn):
        calls.append((P, ww, nn))
        return P[pos]
    m._high_median = callee
    ri = c.choose("index wanted")
    old = x.copy()
    if given:
        r = m.high_median(x, w, return_index=ri) if ri else m.high_median(x, w)
    else:
        r = m.high_median(x, return_index=ri) if ri else m.high_median(x)
    c.ensure("the selection runs once over all data", len(calls) == 1)
    P, ww, nn = calls[0]
    a, b = idx(c, n, "a"), idx(c, n, "b")
    c.ensure("positions order the data", And(nn == n, num(P.shape[0]) == n, P.at(a) >= 0, P.at(a) < n, Implies(a <= b, x.at(P.at(a)) <= x.at(P.at(b))), Implies(a != b, P.at(a) != P.at(b))))
    c.ensure("weights", And(num(ww.shape[0]) == n, ww.at(a) == (w.at(a) if given else 1)))
    if ri:
        c.ensure("value and index", And(r[0] == x.at(P.at(pos)), r[1] == P.at(pos)))
    else:
        c.ensure("value", r == x.at(P.at(pos)))
    c.ensure("data unchanged", x.at(a) == old.at(a))


# ---------------------------------------------------------------- median absolute deviation, shorth
def h_mad(c):
    L = Loader()
    n = c.int("n", lo=1)
    x = fresh(c, "x", n, rnp.float64)
    seen = []
    which = c.choose("off.util")
    m = L.load("mass.off.util" if which else "mass.mathstat.robust")
    real_np = m.np

    class NP:
        def __getattr__(self, k):
            if k == "median":
                def f(v):
                    r = c.real("med%d" % len(seen))
                    seen.append((v.copy(), r))
                    return r
                return f
            return getattr(real_np, k)
    m.np = NP()
    norm = None
    if which:
        r, sig, med = m.median_absolute_deviation(x)
    else:
        norm = c.choose("normalize")
        r = m.median_abs_dev(x, normalize=norm)
    k = idx(c, n)
    c.ensure("two medians", len(seen) >= 2)
    (v0, m0), (v1, m1) = seen[0], seen[-1]
    c.ensure("first the median of the data", And(num(v0.shape[0]) == n, v0.at(k) == x.at(k)))
    c.ensure("then the median of the absolute deviations from it", And(num(v1.shape[0]) == n, v1.at(k) == ite(x.at(k) >= m0, x.at(k) - m0, m0 - x.at(k))))
    if which:
        c.ensure("result", r == m1)
        c.ensure("median", med == m0)
        c.ensure("sigma is the Gaussian multiple", Implies(m1 >= 0, And(sig >= m1 * 1.4825, sig <= m1 * 1.4827)))
    elif norm:
        c.ensure("normalised by the Gaussian constant", r * 0.674480 == m1)
    else:
        c.ensure("result", r == m1)


def h_shorth(c):
    m = LOAD.load("mass.mathstat.robust")
    n = c.int("n", lo=1)
    x = fresh(c, "x", n, rnp.float64)
    old = x.copy()
    inplace = c.choose("sort_inplace")
    loc = c.choose("location")
    xs = sort_(old)
    kw = {}
    if inplace:
        kw["sort_inplace"] = True
    if loc:
        kw["location"] = True
    r = m.shorth_range(x, **kw)
    h = n // 2 + 1
    if loc:
        r, mean, ctr = r
    k = idx(c, n)
    t = c.int("t")
    c.assume(And(t >= 0, t + h <= n))
    c.ensure("no window of h neighbours is shorter", r <= xs.at(t + h - 1) - xs.at(t))
    i = z3.Int(c.fname("i"))
    I = SNum(i)
    ex = lambda body: SBool(z3.Exists([i], And(I >= 0, I + h <= n, r == xs.at(I + h - 1) - xs.at(I), body).e))
    c.ensure("some window has this length", ex(True))
    if loc:
        c.ensure("centre of a shortest window", ex(ctr * 2 == xs.at(I) + xs.at(I + h - 1)))
    if inplace:
        c.ensure("sorted in place when allowed", x.at(k) == xs.at(k))
    else:
        c.ensure("data unchanged", x.at(k) == old.at(k))
    c.cover("end")


# ---------------------------------------------------------------- Q scale
def h_qscale(c):
    """small sets by the definition; larger ones delegate to the selection with the defining rank"""
    L = Loader()
    m = L.load("mass.mathstat.robust")
    r4 = [c.choose("n odd"), c.choose("n//2 odd")]
    e = c.int("e", lo=1)
    half = 2 * e + (1 if r4[1] else 0)
    n = 2 * half + (1 if r4[0] else 0)
    c.assume(n >= 6)
    x = fresh(c, "x", n, rnp.float64)
    old = x.copy()
    inplace = c.choose("sort_inplace")
    xs = sort_(old)
    calls = []
    q = c.real("q")

    def callee(a, nn, kk):
        calls.append((a.copy(), nn, kk))
        return q, 1
    m._Qscale_subroutine = callee
    r = m.Qscale(x, sort_inplace=True) if inplace else m.Qscale(x)
    c.ensure("one selection", len(calls) == 1)
    a, nn, kk = calls[0]
    k = idx(c, n)
    h = half + 1
    c.ensure("over the sorted data", And(nn == n, num(a.shape[0]) == n, a.at(k) == xs.at(k)))
    c.ensure("lemma: half of the data", n // 2 == half)
    kk = SNum(z3.substitute(num(kk).e, (num(n // 2).e, num(half).e)))        # equal, by the lemma
    c.ensure("rank (h choose 2), counted from 0", kk + 1 == (2 * e + 1) * (e + (1 if r4[1] else 0)))
    if not inplace:
        c.ensure("data unchanged", x.at(k) == old.at(k))
    c.ensure("scale is a positive multiple of the order statistic", And(Implies(q == 0, r == 0), Implies(q > 0, And(r > 0, r < q * 3))))
    c.cover("end")


HARNESSES = [
    Harness("_merge_orderedlists_arrays", h_merge, functions=[EN + "_merge_orderedlists_arrays"], specs=SPECM),
    Harness("_merge_orderedlists", h_mergetop, functions=[EN + "_merge_orderedlists"]),
    Harness("lemma: prefix sums", h_prefix),
    Harness("_high_median", h_high, functions=[RB + "_high_median"], specs=SPECH),
    Harness("high_median", h_hightop, functions=[RB + "high_median"]),
    Harness("median absolute deviation", h_mad, functions=[RB + "median_abs_dev", "mass/off/util.py:median_absolute_deviation"]),
    Harness("shorth_range", h_shorth, functions=[RB + "shorth_range"]),
    Harness("Qscale", h_qscale, functions=[RB + "Qscale"]),
]
