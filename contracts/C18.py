"""Toeplitz systems: the solver solves them; whitening is undone by its inverse; transposed operations are adjoint"""
import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of, SArr, as_arr
from loader import Loader
from harness import Harness
import sumlib
from sumlib import sum_eq, head, rev, split

TZ = "mass/mathstat/toeplitz.py:ToeplitzSolver."
OF = "mass/core/optimal_filtering.py:ToeplitzWhitener."
LOADT, LOADW = Loader(), Loader()
I, RS = z3.IntSort(), z3.RealSort()


def fun(c, nm, k=1):
    F = z3.Function(c.fname(nm), *([I] * k), RS)
    return lambda *a: SNum(F(*[num(x).e for x in a]))


# ---------------------------------------------------------------- Levinson's recursion
class Lev:
    """ghost sequences of the recursion for the matrix M(i,j) = R(i-j), by order K:
    G(K,.), H(K,.) and X(K,.) of K terms, pivots D(K), E(K)"""

    def __init__(self, c, even, R=None):
        self.c, self.even = c, even
        self.R = R or fun(c, "R")
        self.y = fun(c, "y")
        self.G, self.X = fun(c, "G", 2), fun(c, "X", 2)
        self.D = fun(c, "D")
        if even:
            self.H, self.E = self.G, self.D
        else:
            self.H, self.E = fun(c, "H", 2), fun(c, "E")

    def sym(self, d): return [self.R(-d) == self.R(d)] if self.even else []

    # numerators and pivots
    def dsum(self, K, g): return Sum(lambda t: self.R(t + 1) * g(t), 0, K)
    def esum(self, K, h): return Sum(lambda t: self.R(-t - 1) * h(t), 0, K)
    def row(self, K, v): return Sum(lambda t: self.R(K - t) * v(t), 0, K)
    def col(self, K, v): return Sum(lambda t: self.R(t - K) * v(t), 0, K)

    def at(self, K):
        return (lambda t: self.G(K, t)), (lambda t: self.H(K, t)), (lambda t: self.X(K, t))

    def first(self):
        r = [self.X(1, 0) * self.R(0) == self.y(0), self.G(1, 0) * self.R(0) == self.R(-1), self.H(1, 0) * self.R(0) == self.R(1), Not(self.R(0) == 0)]
        return r + self.sym(num(1))

    def pivots(self, K):
        g, h, x = self.at(K)
        r = [self.D(K) == self.dsum(K, g) - self.R(0), Not(self.D(K) == 0)]
        if not self.even:
            r += [self.E(K) == self.esum(K, h) - self.R(0), Not(self.E(K) == 0)]
        return r

    def last(self, K):
        """the new last terms of order K+1"""
        g, h, x = self.at(K)
        r = [self.X(K + 1, K) * self.D(K) == self.row(K, x) - self.y(K),
             self.H(K + 1, K) * self.D(K) == self.row(K, h) - self.R(K + 1)]
        if not self.even:
            r += [self.G(K + 1, K) * self.E(K) == self.col(K, g) - self.R(-K - 1)]
        return r + self.sym(K + 1)

    def rest(self, K, t):
        """terms t < K of order K+1"""
        r = [self.X(K + 1, t) == self.X(K, t) - self.X(K + 1, K) * self.G(K, K - 1 - t),
             self.H(K + 1, t) == self.H(K, t) - self.H(K + 1, K) * self.G(K, K - 1 - t)]
        if not self.even:
            r += [self.G(K + 1, t) == self.G(K, t) - self.G(K + 1, K) * self.H(K, K - 1 - t)]
        return r

    # what the sequences solve
    def rx(self, K, i, v): return Sum(lambda t: self.R(i - t) * v(t), 0, K)
    def cx(self, K, i, v): return Sum(lambda t: self.R(t - i) * v(t), 0, K)
    def solves(self, K, i):
        g, h, x = self.at(K)
        return {"x": self.rx(K, i, x) == self.y(i), "h": self.rx(K, i, h) == self.R(i + 1), "g": self.cx(K, i, g) == self.R(-i - 1)}


def h_lemma(c, even, which, row):
    """order K solved -> order K+1 solved, row by row"""
    L = Lev(c, even)
    R, G, H, X = L.R, L.G, L.H, L.X
    if row == "first":
        for f in L.first():
            c.assume(f)
        g, h, x = L.at(num(1))
        L.rx(num(0), num(0), x), L.rx(num(0), num(0), h), L.cx(num(0), num(0), g)
        c.ensure("order 1", L.solves(num(1), num(0))[which])
        c.cover("end")
        return
    K = c.int("K", lo=1)
    g, h, x = L.at(K)
    for f in L.pivots(K) + L.last(K):
        c.assume(f)
    i = c.int("i")
    if row == "old":
        c.assume(And(i >= 0, i < K))
    else:
        c.assume(i == K)
        i = K
    V, back, new = {"x": (X, G, L.X(K + 1, K)), "h": (H, G, L.H(K + 1, K)), "g": (G, H, L.G(K + 1, K))}[which]
    r = (lambda t: R(i - t)) if which != "g" else (lambda t: R(t - i))
    tot = Sum(lambda t: r(t) * V(K + 1, t), 0, K)
    c.assume(sum_eq(c, "terms of the new sum", lambda t: r(t) * V(K + 1, t), lambda t: r(t) * (V(K, t) - new * back(K, K - 1 - t)), K,
                    given=lambda t: L.rest(K, t) + (L.sym(i - t) if even else [])))
    # the sum of the reversed sequence
    other = Sum(lambda t: r(t) * back(K, K - 1 - t), 0, K)
    c.assume(rev(lambda t: r(t) * back(K, K - 1 - t), K))
    if row == "old":
        j = K - 1 - i
        ih, ihj = L.solves(K, i), L.solves(K, j)
        c.assume(ih[which])
        c.assume(ihj["h" if which == "g" else "g"])
        f = (lambda t: R(j - t) * H(K, t)) if which == "g" else (lambda t: R(t - j) * G(K, t))
    else:
        f = (lambda t: R(-t - 1) * H(K, t)) if which == "g" else (lambda t: R(t + 1) * G(K, t))
    c.assume(sum_eq(c, "terms of the sum backwards", lambda t: r(K - 1 - t) * back(K, K - 1 - (K - 1 - t)), f, K,
                    given=lambda t: (L.sym(t + 1) + L.sym(K - i - 1 - t) + L.sym(i - K + 1 + t)) if even else []))
    Sum(lambda t: r(t) * V(K, t), 0, K)
    if even:
        for d in (K - i, i + 1, K + 1):
            for q in L.sym(d):
                c.assume(q)
    want = {"x": L.y(i), "h": R(i + 1), "g": R(-i - 1)}[which]
    c.ensure("row of order K+1", tot + r(K) * V(K + 1, K) == want)
    c.ensure("the whole sum", Sum(lambda t: r(t) * V(K + 1, t), 0, K + 1) == tot + r(K) * V(K + 1, K))
    c.cover("end")


# ---------------------------------------------------------------- the solver computes these sequences
def solver(c, even):
    m = LOADT.load("mass.mathstat.toeplitz")
    n = c.int("n", lo=1)
    T = fresh(c, "T", n if even else 2 * n - 1, rnp.float64)
    s = object.__new__(m.ToeplitzSolver)
    s.symmetric, s.n, s.T = even, n, T
    L = Lev(c, even, None)
    L.n, L.T = n, T
    k = z3.Int("k!")
    K = SNum(k)
    if even:
        c.axiom(forall(lambda d: Implies(And(d >= 0, d < n), And(L.R(d) == num(T.at(d)), L.R(-d) == L.R(d))), pats=lambda d: L.R(d)))
        L.tie = lambda d: Implies(And(d >= 0, d < n), And(num(T.at(d)) == L.R(d), L.R(-d) == L.R(d)))
    else:
        L.tie = lambda d: Implies(And(d > -n, d < n), num(T.at(d + n - 1)) == L.R(d))
    c.ghost = L
    return m, s, L


def same(a, F, K):
    return forall(lambda t: Implies(And(t >= 0, t < K), num(a.at(t)) == F(K, t)), pats=lambda t: F(K, t))


def order(e): return e._k + 1


def inv_pre(e):
    L = ctx().ghost
    K = order(e)
    s = e._d["self"]
    return [("coefficients", same(e.g, L.G, K)),
            ("pivots", forall(lambda t: Implies(And(t >= 1, t < K), And(num(s.xg_denom.at(t)) == L.D(t))), pats=lambda t: L.D(t))),
            ("last coefficients", forall(lambda t: Implies(And(t >= 1, t < K), And(num(s.gK_leading.at(t)) == L.G(t + 1, t))), pats=lambda t: L.G(t + 1, t))),
            ("the last order returns", K <= L.n - 1)]


def recursion(L, K):
    return L.pivots(K) + L.last(K) + [forall(lambda t: Implies(And(t >= 0, t < K), And(*L.rest(K, t))), pats=lambda t: L.X(K + 1, t)),
                                      forall(lambda t: Implies(And(t >= 0, t < K), And(*L.rest(K, t))), pats=lambda t: L.G(K + 1, t))] + \
        ([] if L.even else [forall(lambda t: Implies(And(t >= 0, t < K), And(*L.rest(K, t))), pats=lambda t: L.H(K + 1, t))])


def body_pre(e):
    c, L = ctx(), ctx().ghost
    K = order(e)
    g = e.g.snap()
    inv = lambda t: [Implies(And(t >= 0, t < K), num(g(t)) == L.G(K, t))]
    c.assume(sum_eq(c, "sum of the pivot", lambda t: num(L.T.at(t + 1)) * g(t), lambda t: L.R(t + 1) * L.G(K, t), K, given=lambda t: [L.tie(t + 1)]))
    c.assume(sum_eq(c, "sum of the last coefficient", lambda t: num(L.T.at(K - t)) * g(t), lambda t: L.R(K - t) * L.G(K, t), K, given=lambda t: [L.tie(K - t)]))
    return recursion(L, K) + [L.tie(num(0)), L.tie(K + 1)]


def inv_solve(e):
    L = ctx().ghost
    K = order(e)
    r = [("solution so far", same(e.x, L.X, K)), ("coefficients", same(e.g, L.G, K)), ("the last order returns", K <= L.n - 1)]
    if not L.even:
        r.insert(2, ("other coefficients", same(e.h, L.H, K)))
    return r


def body_solve(e):
    c, L = ctx(), ctx().ghost
    K = order(e)
    x, T = e.x.snap(), L.T.snap()
    c.assume(sum_eq(c, "sum of the next term", lambda t: num(T(K - t)) * x(t), lambda t: L.R(K - t) * L.X(K, t), K, given=lambda t: [L.tie(K - t)]))
    s = e._d["self"]
    return recursion(L, K) + [L.tie(num(0)), L.tie(K + 1)]


def body_general(e):
    c, L = ctx(), ctx().ghost
    K, n = order(e), L.n
    x, g, h, T = e.x.snap(), e.g.snap(), e.h.snap(), L.T.snap()
    tie = lambda d: [L.tie(d)]
    c.assume(sum_eq(c, "sum of the pivot", lambda t: num(T(n + t)) * g(t), lambda t: L.R(t + 1) * L.G(K, t), K, given=lambda t: tie(t + 1)))
    c.assume(sum_eq(c, "sum of the next term", lambda t: num(T(K + n - 1 - t)) * x(t), lambda t: L.R(K - t) * L.X(K, t), K, given=lambda t: tie(K - t)))
    c.assume(sum_eq(c, "sum of the last h", lambda t: num(T(n + K - 1 - t)) * h(t), lambda t: L.R(K - t) * L.H(K, t), K, given=lambda t: tie(K - t)))
    c.assume(sum_eq(c, "sum of the last g", lambda t: num(T(n - K - 1 + t)) * g(t), lambda t: L.R(t - K) * L.G(K, t), K, given=lambda t: tie(t - K)))
    c.assume(rev(lambda t: num(T(n - K - 1 + t)) * h(K - 1 - t), K))
    c.assume(sum_eq(c, "sum of the other pivot", lambda t: num(T(n - K - 1 + (K - 1 - t))) * h(K - 1 - (K - 1 - t)), lambda t: L.R(-t - 1) * L.H(K, t), K, given=lambda t: tie(-t - 1)))
    return recursion(L, K) + [L.tie(num(0)), L.tie(K + 1), L.tie(-K - 1)]


SPECT = {
    ("__precompute_symmetric", 0): LoopSpec(inv_pre, body_lemma=body_pre),
    ("__solve_symmetric", 0): LoopSpec(inv_solve, body_lemma=body_solve),
    ("__solve_asymmetric", 0): LoopSpec(inv_solve, body_lemma=body_general),
}


def h_solve(c, even):
    m, s, L = solver(c, even)
    for f in L.first() + [L.tie(num(0)), L.tie(num(1)), L.tie(num(-1))]:
        c.assume(f)
    n = L.n
    if even:            # contract of precompute_symmetric
        s.xg_denom, s.gK_leading = fresh(c, "xg_denom", n, rnp.float64), fresh(c, "gK_leading", n, rnp.float64)
        c.axiom(forall(lambda t: Implies(And(t >= 1, t < n), num(s.xg_denom.at(t)) == L.D(t)), pats=lambda t: L.D(t)))
        c.axiom(forall(lambda t: Implies(And(t >= 1, t < n - 1), num(s.gK_leading.at(t)) == L.G(t + 1, t)), pats=lambda t: L.G(t + 1, t)))
    y = fresh(c, "rhs", c.int("length", lo=0), rnp.float64)
    c.axiom(forall(lambda t: L.y(t) == num(y.at(t)), pats=lambda t: L.y(t)))
    try:
        x = s(y)
    except AssertionError:
        c.ensure("refused only when the length does not fit", Not(num(y.shape[0]) == n))
        return
    t = c.int("t")
    c.assume(And(t >= 0, t < n))
    c.ensure("one value per equation", num(x.shape[0]) == n)
    c.ensure("the last order's solution", num(x.at(t)) == L.X(n, t))
    c.cover("end")


def h_precompute(c):
    m, s, L = solver(c, True)
    for f in L.first() + [L.tie(num(0)), L.tie(num(1))]:
        c.assume(f)
    s._ToeplitzSolver__precompute_symmetric()
    t = c.int("t")
    c.assume(And(t >= 1, t < L.n))
    c.ensure("pivot of each order", num(s.xg_denom.at(t)) == L.D(t))
    c.ensure("last coefficient of each order", Implies(t < L.n - 1, num(s.gK_leading.at(t)) == L.G(t + 1, t)))
    c.cover("end")


def inv_mult(e):
    L = ctx().ghost
    K = order(e)
    return [("rows so far", forall(lambda t: Implies(And(t >= 0, t < K), num(e.y.at(t)) == L.M(t)), pats=lambda t: L.M(t)))]


def body_mult(e):
    c, L = ctx(), ctx().ghost
    i, n = order(e), L.n
    x, T = L.x, L.T.snap()
    row = lambda t: L.R(i - t) * x(t)
    c.assume(split(row, i, n))
    c.assume(rev(row, i))
    c.assume(sum_eq(c, "terms right of the diagonal", lambda t: num(T(t)) * x(t + i), lambda t: row(t + i), n - i, given=lambda t: [L.tie(t)] + L.sym(t)))
    c.assume(sum_eq(c, "terms left of the diagonal", lambda t: num(T(t + 1)) * x(i - 1 - t), lambda t: row(i - 1 - t), i, given=lambda t: [L.tie(t + 1)] + L.sym(t + 1)))
    whole = Sum(row, 0, n)
    c.ensure("row split at the diagonal", whole == Sum(lambda t: num(T(t)) * x(t + i), 0, n - i) + Sum(lambda t: num(T(t + 1)) * x(i - 1 - t), 0, i))
    return [L.M(i) == whole]


SPECT[("mult", 0)] = LoopSpec(inv_mult, body_lemma=body_mult)


def h_mult(c):
    m, s, L = solver(c, True)
    n = L.n
    dt = rnp.int64 if c.choose("whole numbers") else rnp.float64
    x = fresh(c, "x", c.int("length", lo=0), dt)
    f = x.snap()
    L.x, L.M = (lambda t: num(f(t))), fun(c, "product")
    row0 = lambda t: L.R(num(0) - t) * L.x(t)
    c.assume(L.M(0) == Sum(row0, 0, n))
    c.assume(sum_eq(c, "first row", lambda t: num(L.T.at(t)) * L.x(t), row0, n, given=lambda t: [L.tie(t)] + L.sym(t)))
    try:
        y = s.mult(x)
    except AssertionError:
        c.ensure("refused only when the length does not fit", Not(num(x.shape[0]) == n))
        return
    i = c.int("i")
    c.assume(And(i >= 0, i < n))
    c.ensure("one value per row", num(y.shape[0]) == n)
    c.ensure("product with row i of the matrix", num(y.at(i)) == L.M(i))
    c.cover("end")


def h_new(c, even):
    m = LOADT.load("mass.mathstat.toeplitz")
    N = c.int("length", lo=1)
    T = fresh(c, "T", N, rnp.int64 if c.choose("whole numbers") else rnp.float64)
    old = T.snap()
    done = []
    real = m.ToeplitzSolver._ToeplitzSolver__precompute_symmetric
    m.ToeplitzSolver._ToeplitzSolver__precompute_symmetric = lambda self: done.append(1)
    try:
        s = m.ToeplitzSolver(T, symmetric=even)
    except AssertionError:
        c.ensure("only a general matrix of an even number of values is refused", And(not even, N % 2 == 0))
        return
    finally:
        m.ToeplitzSolver._ToeplitzSolver__precompute_symmetric = real
    c.ensure("size", num(s.n) == N if even else num(s.n) * 2 - 1 == N)
    t = c.int("t")
    c.assume(And(t >= 0, t < N))
    c.ensure("values of the matrix", num(s.T.at(t)) == num(old(t)))
    c.ensure("their number", num(s.T.shape[0]) == N)
    c.ensure("precomputation when symmetric", len(done) == (1 if even else 0))
    c.ensure("kind", s.symmetric is even)
    c.cover("end")


def h_columns(c):
    """a matrix is solved column by column (bounded: up to 3 columns)"""
    m, s, L = solver(c, True)
    k = 1 if c.choose("one column") else 2 if c.choose("two columns") else 3
    n = L.n
    y = fresh(c, "rhs", (n, k), rnp.float64)
    F = z3.Function(c.fname("solution"), I, I, RS)
    cols = []

    def one(col):
        cols.append(col)
        j = len(cols) - 1
        t = c.int("t")
        c.assume(And(t >= 0, t < n))
        c.ensure("a column of the right-hand side", And(num(col.shape[0]) == n, num(col.at(t)) == y.at(t, j)))
        return lazy((n,), lambda t: SNum(F(num(j).e, num(t).e)), dt_of(rnp.float64))
    real = type(s)._ToeplitzSolver__solve_symmetric
    s._ToeplitzSolver__solve_symmetric = one
    x = real(s, y)
    t, j = c.int("t"), c.int("j")
    c.assume(And(t >= 0, t < n, j >= 0, j < k))
    c.ensure("each column's solution", num(x.at(t, j)) == SNum(F(j.e, t.e)))
    c.cover("end")


# ---------------------------------------------------------------- whitening
def conv(a, d, x, n):
    """terms of (a * x)(n) for coefficients a_0 .. a_d"""
    return Sum(lambda t: a(t) * x(n - t), 0, smin(d, n) + 1)


def corr(a, d, x, n, N):
    return Sum(lambda t: a(t) * x(n + t), 0, smin(d, N - 1 - n) + 1)


def smin(a, b): return ite(num(a) <= b, a, b)


class Arma:
    def __init__(self, c, m):
        self.c = c
        self.p, self.q = c.int("p", lo=0), c.int("q", lo=0)
        self.theta_, self.phi_ = fresh(c, "theta", self.q + 1, rnp.float64), fresh(c, "phi", self.p + 1, rnp.float64)
        th, ph = self.theta_.snap(), self.phi_.snap()
        self.theta, self.phi = (lambda t: num(th(t))), (lambda t: num(ph(t)))
        c.assume(And(Not(self.theta(0) == 0), Not(self.phi(0) == 0)))
        self.w = object.__new__(m.ToeplitzWhitener)
        object.__setattr__(self.w, "theta", self.theta_)
        object.__setattr__(self.w, "phi", self.phi_)

    def roles(self, inverse):
        """(multiplier, its degree, divisor, its degree)"""
        return (self.theta, self.q, self.phi, self.p) if inverse else (self.phi, self.p, self.theta, self.q)


# forward: y = multiplier * v, then divided by the divisor
def inv_times(e):
    G = ctx().ghost
    i = e._k + 1
    return [("products so far", forall(lambda t: Implies(And(t >= 0, t < G.N), num(e.y.at(t)) == G.P(i, t)), pats=lambda t: G.P(i, t)))]


def body_times(e):
    G = ctx().ghost
    i = e._k + 1
    return [forall(lambda t: Implies(t >= 0, G.P(i + 1, t) == G.P(i, t) + ite(t >= i, G.mul(i) * G.v(t - i), num(0.0))), pats=lambda t: G.P(i + 1, t))]


def exit_times(e):
    """all products: the first term or more of each value"""
    G = ctx().ghost
    return [forall(lambda t: Implies(And(t >= 0, t < G.N), G.P(G.dm + 1, t) == G.A(t)), pats=lambda t: G.A(t))]


def state(G, y, i):
    return forall(lambda t: Implies(And(t >= 0, t < G.N), num(y.at(t)) == ite(t < i, G.Y(t), G.A(t))), pats=lambda t: (G.Y(t), G.A(t)))


def inv_first(e): return [("values so far", state(ctx().ghost, e.y, e._k + 1))]


def inv_second(e):
    G = ctx().ghost
    return [("values so far", state(G, e.y, ite(G.dd >= 1, G.dd, num(1)) + e._k))]


def part_sum(G, i, k):
    lo = i - smin(G.dd, i)
    return Sum(lambda s: G.Y(lo + s) * G.div(i - lo - s), 0, k)


def inv_sub(e):
    G = ctx().ghost
    i = num(e._d["i"])
    return [("others unchanged", forall(lambda t: Implies(And(t >= 0, t < G.N, Not(t == i)), num(e.y.at(t)) == ite(t < i, G.Y(t), G.A(t))), pats=lambda t: (G.Y(t), G.A(t)))),
            ("what is left of this value", num(e.y.at(i)) == G.A(i) - part_sum(G, i, e._k))]


def body_value(e, second):
    """definition of this value"""
    G = ctx().ghost
    i = e._k + 1 if not second else ite(G.dd >= 1, G.dd, num(1)) + e._k
    return [G.Y(i) * G.div(0) == G.A(i) - part_sum(G, i, smin(G.dd, i))]


class Whiten:
    pass


def forward(c, inverse):
    m = LOADW.load("mass.core.optimal_filtering")
    W = Arma(c, m)
    G = c.ghost = Whiten()
    G.mul, G.dm, G.div, G.dd = W.roles(inverse)
    G.N = N = c.int("N", lo=1)
    v = fresh(c, "v", N, rnp.int64 if c.choose("whole numbers") else rnp.float64)
    f = v.snap()
    G.v = lambda t: num(f(t))
    G.P, G.A, G.Y = fun(c, "P", 2), fun(c, "A"), fun(c, "Y")
    c.axiom(forall(lambda t: Implies(t >= 0, G.P(1, t) == G.mul(0) * G.v(t)), pats=lambda t: G.P(1, t)))
    c.assume(G.Y(0) * G.div(0) == G.A(0))
    r = W.w.solveW(v) if inverse else (W.w(v) if c.choose("called") else W.w.whiten(v))
    t = c.int("t")
    c.assume(And(t >= 0, t < N))
    c.ensure("one value per sample", num(r.shape[0]) == N)
    c.ensure("the solution of the recursion", num(r.at(t)) == G.Y(t))
    c.ensure("the input is not changed", num(v.at(t)) == num(f(t)))
    c.cover("end")


SPECW = {}
for _fn in ("__call__", "solveW"):
    SPECW[(_fn, 1)] = LoopSpec(inv_times, body_lemma=body_times, exit_lemma=exit_times)
    SPECW[(_fn, 2)] = LoopSpec(inv_first, body_lemma=lambda e: body_value(e, False))
    SPECW[(_fn, 3)] = LoopSpec(inv_sub)
    SPECW[(_fn, 4)] = LoopSpec(inv_second, body_lemma=lambda e: body_value(e, True))
    SPECW[(_fn, 5)] = LoopSpec(inv_sub)


def h_products(c):
    """lemma: the products accumulated by order are (a * v)(n)"""
    a, v, P = fun(c, "a"), fun(c, "v"), fun(c, "P", 2)
    n, i = c.int("n", lo=0), c.int("i", lo=1)
    C = lambda i: Sum(lambda t: a(t) * v(n - t), 0, smin(i, n + 1))
    c.assume(P(1, n) == a(0) * v(n))
    Sum(lambda t: a(t) * v(n - t), 0, num(0))
    c.ensure("order 0", P(1, n) == C(num(1)))
    c.assume(P(i, n) == C(i))
    c.assume(P(i + 1, n) == P(i, n) + ite(n >= i, a(i) * v(n - i), num(0.0)))
    c.ensure("next order", P(i + 1, n) == C(i + 1))
    c.ensure("all orders", C(i + 1) == conv(a, i, v, n))
    c.cover("end")


def h_relation(c):
    """lemma: the recursion's solution times the divisor is the product"""
    b, Y, A = fun(c, "b"), fun(c, "Y"), c.real("A")
    n, d = c.int("n", lo=0), c.int("d", lo=0)
    mm = smin(d, n)
    g = lambda s: Y(n - mm + s) * b(mm - s)
    c.assume(Y(n) * b(0) == A - Sum(g, 0, mm))
    c.assume(rev(g, mm))
    c.assume(head(lambda t: b(t) * Y(n - t), mm + 1))
    c.assume(sum_eq(c, "terms", lambda s: g(mm - 1 - s), lambda s: b(s + 1) * Y(n - (s + 1)), mm))
    c.ensure("divisor times solution", conv(b, d, Y, n) == A)
    c.cover("end")


def h_unique(c):
    """lemma: two sequences of equal products with b, b_0 not 0, are equal (strong induction)"""
    b, Y, Z = fun(c, "b"), fun(c, "Y"), fun(c, "Z")
    n, d = c.int("n", lo=0), c.int("d", lo=0)
    c.assume(Not(b(0) == 0))
    c.assume(conv(b, d, Y, n) == conv(b, d, Z, n))
    mm = smin(d, n)
    for S in (Y, Z):
        c.assume(head(lambda t: b(t) * S(n - t), mm + 1))
    c.assume(sum_eq(c, "earlier terms", lambda t: b(t + 1) * Y(n - (t + 1)), lambda t: b(t + 1) * Z(n - (t + 1)), mm, given=lambda t: [Y(n - 1 - t) == Z(n - 1 - t)]))
    c.ensure("this term", Y(n) == Z(n))
    c.cover("end")


def h_unique_back(c):
    b, Y, Z = fun(c, "b"), fun(c, "Y"), fun(c, "Z")
    n, d, N = c.int("n", lo=0), c.int("d", lo=0), c.int("N")
    c.assume(And(Not(b(0) == 0), n < N))
    c.assume(corr(b, d, Y, n, N) == corr(b, d, Z, n, N))
    mm = smin(d, N - 1 - n)
    for S in (Y, Z):
        c.assume(head(lambda t: b(t) * S(n + t), mm + 1))
    c.assume(sum_eq(c, "later terms", lambda t: b(t + 1) * Y(n + (t + 1)), lambda t: b(t + 1) * Z(n + (t + 1)), mm, given=lambda t: [Y(n + 1 + t) == Z(n + 1 + t)]))
    c.ensure("this term", Y(n) == Z(n))
    c.cover("end")


def h_relation_back(c):
    """lemma: the backwards recursion's solution correlated with the divisor is the input"""
    b, Z, v = fun(c, "b"), fun(c, "Z"), c.real("v")
    n, d, N = c.int("n", lo=0), c.int("d", lo=0), c.int("N")
    c.assume(n < N)
    mm = smin(d, N - 1 - n)
    c.assume(Z(n) * b(0) == v - Sum(lambda s: Z(n + 1 + s) * b(s + 1), 0, mm))
    c.assume(head(lambda t: b(t) * Z(n + t), mm + 1))
    c.ensure("divisor correlated with the solution", corr(b, d, Z, n, N) == v)
    c.cover("end")


def h_roundtrip(c):
    """lemma: whitened, then unwhitened, has the same products with phi as the original, so is the original
    (lemma: unique); unwhitened, then whitened likewise with theta; and transposed"""
    th, ph, v, Y, Z = fun(c, "theta"), fun(c, "phi"), fun(c, "v"), fun(c, "Y"), fun(c, "Z")
    p, q, n, N = c.int("p", lo=0), c.int("q", lo=0), c.int("n", lo=0), c.int("N")
    c.assume(n < N)
    C = lambda a, d, x: conv(a, d, x, n)
    K = lambda a, d, x: corr(a, d, x, n, N)
    k = c.choose("plain")
    if k:
        c.assume(And(C(th, q, Y) == C(ph, p, v), C(ph, p, Z) == C(th, q, Y)))
        c.ensure("solveW after whiten", C(ph, p, Z) == C(ph, p, v))
    else:
        # applyWT(v): theta o z = v, result phi o z; solveWT of it: phi o z2 = phi o z, result theta o z2
        c.assume(And(K(th, q, Y) == v(n), K(ph, p, Z) == K(ph, p, Y)))
        c.ensure("solveWT after applyWT solves the same equations", K(ph, p, Z) == K(ph, p, Y))
        c.assume(sum_eq(c, "and so (lemma: unique, backwards)", lambda t: th(t) * Z(n + t), lambda t: th(t) * Y(n + t), smin(q, N - 1 - n) + 1, given=lambda t: [Z(n + t) == Y(n + t)]))
        c.ensure("is the original", K(th, q, Z) == v(n))
    c.cover("end")


def h_adjoint(c):
    """lemma: <a * x, u> = <x, a o u> over N values, by induction on N"""
    a, x, u = fun(c, "a"), fun(c, "x"), fun(c, "u")
    d, N = c.int("d", lo=0), c.int("N", lo=0)
    C, K0, K1 = fun(c, "C"), fun(c, "K_N"), fun(c, "K_N1")
    left = lambda M: Sum(lambda n: u(n) * C(n), 0, M)
    c.assume(left(N) == Sum(lambda n: x(n) * K0(n), 0, N))
    c.assume(C(N) == conv(a, d, x, N))
    mm = smin(d, N)
    # one more value: K_N+1(n) has one more term where N - n <= d
    n = c.int("n")
    c.assume(And(n >= 0, n < N))
    more = lambda n: ite(N - n <= d, a(N - n), num(0.0))
    corr(a, d, u, n, N), corr(a, d, u, n, N + 1)
    c.ensure("one more term", corr(a, d, u, n, N + 1) == corr(a, d, u, n, N) + more(n) * u(N))
    Sum(lambda t: a(t) * u(N + t), 0, num(0))
    c.ensure("the last value has one term", corr(a, d, u, N, N + 1) == a(0) * u(N))
    c.assume(K1(N) == a(0) * u(N))
    c.assume(sum_eq(c, "terms with one more", lambda n: x(n) * K1(n), lambda n: x(n) * K0(n) + u(N) * (more(n) * x(n)), N, given=lambda n: [K1(n) == K0(n) + more(n) * u(N)]))
    # the added terms are those of (a * x)(N) but the first
    back = lambda n: more(n) * x(n)
    c.assume(rev(back, N))
    c.assume(split(lambda s: back(N - 1 - s), mm, N))
    c.assume(sum_eq(c, "terms within reach", lambda s: back(N - 1 - s), lambda s: a(s + 1) * x(N - (s + 1)), mm))
    zero = Sum(lambda s: back(N - 1 - (s + mm)), 0, N - mm)
    Zf = fun(c, "zero")
    c.axiom(forall(lambda t: Zf(t) == 0, pats=lambda t: Zf(t)))
    c.assume(sum_eq(c, "terms out of reach", lambda s: back(N - 1 - (s + mm)), lambda s: Zf(s), N - mm))
    c.assume(Sum(Zf, 0, N - mm) == 0)          # lemma: zeros
    c.assume(head(lambda t: a(t) * x(N - t), mm + 1))
    c.ensure("one more value", left(N + 1) == Sum(lambda n: x(n) * K1(n), 0, N + 1))
    c.cover("end")


def h_zeros(c):
    Zf, m = fun(c, "zero"), c.int("m", lo=0)
    c.axiom(forall(lambda t: Zf(t) == 0, pats=lambda t: Zf(t)))
    c.ensure("no terms", Sum(Zf, 0, num(0)) == 0)
    c.assume(Sum(Zf, 0, m) == 0)
    c.ensure("step", Sum(Zf, 0, m + 1) == 0)
    c.cover("end")


def h_adjoint_whiten(c):
    """lemma: <W v, u> = <v, W' u>: with theta * Y = phi * v (W v = Y), theta o Z = u (W' u = phi o Z) and the
    lemma above for theta and for phi; likewise the inverses (theta and phi exchanged)"""
    N = c.int("N", lo=0)
    Y, Z, u, v = fun(c, "Y"), fun(c, "Z"), fun(c, "u"), fun(c, "v")
    tY, tZ, pv, pZ = fun(c, "theta*Y"), fun(c, "theta o Z"), fun(c, "phi*v"), fun(c, "phi o Z")
    dot = lambda a, b: Sum(lambda n: a(n) * b(n), 0, N)
    c.assume(dot(tY, Z) == dot(Y, tZ))
    c.assume(dot(pv, Z) == dot(v, pZ))
    c.assume(sum_eq(c, "u is theta o Z", lambda n: Y(n) * u(n), lambda n: Y(n) * tZ(n), N, given=lambda n: [tZ(n) == u(n)]))
    c.assume(sum_eq(c, "theta * Y is phi * v", lambda n: tY(n) * Z(n), lambda n: pv(n) * Z(n), N, given=lambda n: [tY(n) == pv(n)]))
    c.ensure("adjoint", dot(Y, u) == dot(v, pZ))
    c.cover("end")


def inv_cols(e):
    G = ctx().ghost
    out = e._d[G.name]
    return [("columns so far", forall(lambda t, j: Implies(And(t >= 0, t < G.N, j >= 0, j < e._k), num(out.at(t, j)) == SNum(G.F(num(j).e, num(t).e))), n=2))]


def body_cols(e):
    ctx().ghost.j = e._k
    return []


for _fn in ("__call__", "solveW", "solveWT", "applyWT"):
    SPECW[(_fn, 0)] = LoopSpec(inv_cols, body_lemma=body_cols)


def h_cols(c, fn):
    """a matrix is treated column by column, each by the method for vectors (its contract above)"""
    m = LOADW.load("mass.core.optimal_filtering")
    G = c.ghost = Whiten()
    G.name = "w" if fn == "__call__" else "r"
    G.N, k = c.int("N", lo=1), c.int("columns", lo=0)
    G.F, G.j = z3.Function(c.fname("column"), I, I, RS), None
    v = fresh(c, "v", (G.N, k), rnp.int64 if c.choose("whole numbers") else rnp.float64)
    f = v.snap()

    def one(self, col):
        t, j = c.int("t"), G.j
        c.assume(And(t >= 0, t < G.N))
        c.ensure("a column of the matrix", And(num(col.shape[0]) == G.N, num(col.at(t)) == num(f(t, j))))
        return lazy((G.N,), lambda t: SNum(G.F(num(j).e, num(t).e)), dt_of(rnp.float64))
    stub = type("OneColumn", (m.ToeplitzWhitener,), {fn: one})
    A = Arma(c, m)
    w = object.__new__(stub)
    object.__setattr__(w, "theta", A.theta_)
    object.__setattr__(w, "phi", A.phi_)
    r = getattr(m.ToeplitzWhitener, fn)(w, v)
    t, j = c.int("t"), c.int("j")
    c.assume(And(t >= 0, t < G.N, j >= 0, j < k))
    c.ensure("shape", And(num(r.shape[0]) == G.N, num(r.shape[1]) == k))
    c.ensure("each column's result", num(r.at(t, j)) == SNum(G.F(j.e, t.e)))
    c.cover("end")


def h_dims(c):
    m = LOADW.load("mass.core.optimal_filtering")
    A = Arma(c, m)
    v = fresh(c, "v", (c.int("a", lo=1), 2, 2), rnp.float64)
    for fn in ("__call__", "solveW", "solveWT", "applyWT"):
        try:
            getattr(A.w, fn)(v)
            c.ensure(fn + ": more than two dimensions are refused", False)
        except ValueError:
            c.ensure(fn + ": more than two dimensions are refused", True)
    c.cover("end")


# the full matrix
def inv_rows(e):
    G = ctx().ghost
    i = e._k
    return [(nm, forall(lambda r, s: Implies(And(r >= 0, r < G.N, s >= 0, s < G.N), num(arr.at(r, s)) == ite(And(r < i, s <= r, r - s <= d), co(r - s), num(0.0))), n=2))
            for nm, arr, co, d in (("AR so far", e.AR, G.W.phi, G.W.p), ("MA so far", e.MA, G.W.theta, G.W.q))]


def inv_row(which):
    def inv(e):
        G = ctx().ghost
        i = num(e._d["i"])
        out = []
        for nm, arr, co, d in (("AR", e.AR, G.W.phi, G.W.p), ("MA", e.MA, G.W.theta, G.W.q)):
            lo = ite(i - d > 0, i - d, num(0))
            done = lo + e._k if nm == which else (i + 1 if nm == "AR" else num(0))
            out.append((nm + " so far", forall(lambda r, s: Implies(And(r >= 0, r < G.N, s >= 0, s < G.N),
                        num(arr.at(r, s)) == ite(Or(And(r < i, s <= r, r - s <= d), And(r == i, s <= r, r - s <= d, s < done)), co(r - s), num(0.0))), n=2)))
        return out
    return inv


SPECW[("W", 0)], SPECW[("W", 1)], SPECW[("W", 2)] = LoopSpec(inv_rows), LoopSpec(inv_row("AR")), LoopSpec(inv_row("MA"))


def h_matrix(c):
    m = LOADW.load("mass.core.optimal_filtering")
    real = m.np if not isinstance(m.np, Np) else m.np.np
    G = c.ghost = Whiten()
    G.N = N = c.int("N", lo=1)
    got = []

    class Lin:
        @staticmethod
        def solve(A, B):
            got.append((A, B))
            return "solution"
    m.np = Np(real, linalg=Lin)
    W = G.W = Arma(c, m)
    r = W.w.W(N)
    i, j = c.int("i"), c.int("j")
    c.assume(And(i >= 0, i < N, j >= 0, j < N))
    c.ensure("solution of MA W = AR", And(r == "solution", len(got) == 1))
    MA, AR = got[0]
    c.ensure("square", And(*[num(x) == N for a in (MA, AR) for x in a.shape]))
    c.ensure("MA matrix", num(MA.at(i, j)) == ite(And(j <= i, i - j <= W.q), W.theta(i - j), num(0.0)))
    c.ensure("AR matrix", num(AR.at(i, j)) == ite(And(j <= i, i - j <= W.p), W.phi(i - j), num(0.0)))
    c.cover("end")


# transposed: divided backwards, then correlated with the multiplier
def correlate(a, v, mode="valid"):
    """contract of numpy.correlate(a, v, 'full'): at len(v)-1+n the sum of a[n+t] v[t]"""
    a, v = as_arr(a), as_arr(v)
    f, g, N, M = a.snap(), v.snap(), num(a.shape[0]), num(v.shape[0])
    ctx().ghost.divided, ctx().ghost.with_ = f, g
    if mode != "full":
        raise Unsupported("correlate: " + mode)

    def el(k):
        n = num(k) - (M - 1)
        ctx().note_assumption("numpy.correlate(a, v, 'full')[len(v)-1:] is the correlation of a with v")
        return ite(n >= 0, Sum(lambda t: num(f(n + t)) * g(t), 0, smin(M, N - n)), ctx().real("lags below zero"))
    return lazy((N + M - 1,), el, dt_of(rnp.float64))


class Np:
    def __init__(self, np, **over): self.__dict__["np"], self.__dict__["over"] = np, over

    def __getattr__(self, k):
        o = self.__dict__.get("over", {})
        return o[k] if k in o else getattr(self.__dict__["np"], k)


def inv_back(e):
    G = ctx().ghost
    i = G.N - 1 - e._k
    return [("values so far", forall(lambda t: Implies(And(t >= 0, t < G.N), num(e.y.at(t)) == ite(t >= i, G.Z(t), G.v(t))), pats=lambda t: (G.Z(t), G.v(t))))]


def body_back(e):
    c, G = ctx(), ctx().ghost
    i = G.N - 2 - e._k
    y = e.y.snap()
    mm = smin(G.dd, G.N - 1 - i)
    c.assume(sum_eq(c, "sum over the later values", lambda s: num(y(i + 1 + s)) * G.div(s + 1), lambda s: G.Z(i + 1 + s) * G.div(s + 1), mm))
    return [G.Z(i) * G.div(0) == G.v(i) - Sum(lambda s: G.Z(i + 1 + s) * G.div(s + 1), 0, mm)]


SPECW[("solveWT", 1)] = SPECW[("applyWT", 1)] = LoopSpec(inv_back, body_lemma=body_back)


def h_transposed(c, inverse):
    m = LOADW.load("mass.core.optimal_filtering")
    real = m.np if not isinstance(m.np, Np) else m.np.np
    m.np = Np(real, correlate=correlate)
    W = Arma(c, m)
    G = c.ghost = Whiten()
    G.mul, G.dm, G.div, G.dd = W.roles(inverse)
    G.N = N = c.int("N", lo=1)
    v = fresh(c, "v", N, rnp.int64 if c.choose("whole numbers") else rnp.float64)
    f = v.snap()
    G.v, G.Z = fun(c, "v0"), fun(c, "Z")
    c.axiom(forall(lambda t: G.v(t) == num(f(t)), pats=lambda t: G.v(t)))
    c.assume(G.Z(N - 1) * G.div(0) == G.v(N - 1))
    r = W.w.solveWT(v) if inverse else W.w.applyWT(v)
    t = c.int("t")
    c.assume(And(t >= 0, t < N))
    c.ensure("one value per sample", num(r.shape[0]) == N)
    want = corr(G.mul, G.dm, G.Z, t, N)
    got = num(r.at(t))
    k = smin(G.dm, N - 1 - t) + 1
    c.assume(sum_eq(c, "terms of the correlation", lambda s: num(G.divided(t + s)) * num(G.with_(s)), lambda s: G.mul(s) * G.Z(t + s), k))
    c.ensure("the correlation of the recursion's solution", got == want)
    c.ensure("the input is not changed", num(v.at(t)) == num(f(t)))
    c.cover("end")


HARNESSES = list(sumlib.HARNESSES)
HARNESSES += [
    Harness("mult", h_mult, functions=[TZ + "mult"], specs=SPECT),
    Harness("new symmetric", lambda c: h_new(c, True), functions=[TZ + "__init__"]),
    Harness("new general", lambda c: h_new(c, False), functions=[TZ + "__init__"]),
    Harness("several right-hand sides", h_columns, functions=[TZ + "__solve_symmetric"], bounded="up to 3 right-hand sides"),
    Harness("lemma: products by order", h_products),
    Harness("lemma: recursion", h_relation),
    Harness("lemma: backwards recursion", h_relation_back),
    Harness("lemma: round trips", h_roundtrip),
    Harness("lemma: zeros", h_zeros),
    Harness("lemma: adjoint", h_adjoint),
    Harness("lemma: adjoint whitening", h_adjoint_whiten),
    Harness("whitening matrix", h_matrix, functions=[OF + "W"], specs=SPECW),
    Harness("applyWT", lambda c: h_transposed(c, False), functions=[OF + "applyWT"], specs=SPECW),
    Harness("solveWT", lambda c: h_transposed(c, True), functions=[OF + "solveWT"], specs=SPECW),
    Harness("lemma: unique", h_unique),
    Harness("lemma: unique, backwards", h_unique_back),
    Harness("whiten", lambda c: forward(c, False), functions=[OF + "__call__", OF + "whiten", OF + "p", OF + "q"], specs=SPECW),
    Harness("solveW", lambda c: forward(c, True), functions=[OF + "solveW"], specs=SPECW),
]
HARNESSES += [Harness("columns: " + _f, lambda c, f=_f: h_cols(c, f), functions=[OF + _f], specs=SPECW) for _f in ("__call__", "solveW", "solveWT", "applyWT")]
HARNESSES += [Harness("three dimensions", h_dims, functions=[OF + _f for _f in ("__call__", "solveW", "solveWT", "applyWT")])]
for _even, _nm in ((True, "symmetric"), (False, "general")):
    for _w in (("x", "h") if _even else ("x", "h", "g")):
        for _r in ("first", "old", "new"):
            HARNESSES.append(Harness(f"lemma: Levinson, {_nm}, {_w}, {_r} row", lambda c, e=_even, w=_w, r=_r: h_lemma(c, e, w, r)))
HARNESSES += [
    Harness("precompute_symmetric", h_precompute, functions=[TZ + "__precompute_symmetric"], specs=SPECT),
    Harness("solve_symmetric", lambda c: h_solve(c, True), functions=[TZ + "__call__", TZ + "__solve_symmetric"], specs=SPECT),
    Harness("solve_asymmetric", lambda c: h_solve(c, False), functions=[TZ + "__call__", TZ + "__solve_asymmetric"], specs=SPECT),
]
