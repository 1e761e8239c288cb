"""Cubic splines: the tridiagonal solution for any number of knots, evaluation for any number of points, and the calculus lemmas
that make these the smooth interpolant of the property"""
import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, SArr, as_arr
from loader import Loader
from harness import Harness

F = "mass/mathstat/interpolate.py:"
LOAD = Loader()
I, R = z3.IntSort(), z3.RealSort()


def increasing(c, x, n):
    c.assume(forall(lambda i, j: Implies(And(i >= 0, i < j, j < n), x.at(i) < x.at(j)), n=2, pats=lambda i, j: [(x.at(i), x.at(j))]))


# ------------------------------------------------------------ specification: the value of the pieces
def piece(der, v, xlo, xhi, ylo, yhi, zlo, zhi):
    """derivative der at v of the cubic through (xlo,ylo), (xhi,yhi) with second derivatives zlo, zhi"""
    dx = xhi - xlo
    a, b = (xhi - v) / dx, (v - xlo) / dx
    if der == 0:
        return a * ylo + b * yhi + ((a * a * a - a) * zlo + (b * b * b - b) * zhi) * dx * dx / 6
    if der == 1:
        return -ylo / dx + yhi / dx + ((-(a * a) + sfloat(1) / 3) * zlo + (b * b - sfloat(1) / 3) * zhi) * dx / 2
    if der == 2:
        return a * zlo + b * zhi
    return (zhi - zlo) / dx if der == 3 else num(0)


def line(der, v, x0, y0, s):
    return y0 + (v - x0) * s if der == 0 else s if der == 1 else num(0)


def spline(c, m, cls, n):
    s = object.__new__(cls)
    x = fresh(c, "x", n, rnp.float64)
    increasing(c, x, n)
    s._x, s._y, s._y2, s._n = x, fresh(c, "y", n, rnp.float64), fresh(c, "z", n, rnp.float64), n
    s.yprime1, s.yprimeN = c.real("yp1"), c.real("ypN")
    s.xstep = s._x[1:] - s._x[:-1]
    s.ystep = s._y[1:] - s._y[:-1]
    return s


class NPx:
    """numpy with the result of searchsorted recorded (for intermediate facts the solver needs)"""
    def __init__(self, real): self.real, self.got = real, []
    def __getattr__(self, k): return getattr(self.real, k)

    def searchsorted(self, *a, **k):
        r = self.real.searchsorted(*a, **k)
        self.got.append(r)
        return r


REALNP = {}


def h_eval(c):
    m = LOAD.load("mass.mathstat.interpolate")
    m.np = npx = NPx(REALNP.setdefault("np", m.np if not isinstance(m.np, NPx) else m.np.real))
    n = c.int("n", lo=2)
    fn = c.choose("differentiable function object")
    s = spline(c, m, m.CubicSplineFunction if fn else m.CubicSpline, n)
    extra = der = 0
    if fn:
        s.der = extra = 1 if c.choose("of a derivative") else 0
        der = 1 if c.choose("first derivative") else 0
    else:
        while der < 4 and c.choose("higher"):
            der += 1
    if not fn and der < 2 and c.choose("scalar argument"):
        v = c.real("v")
        r, k = (s(v, der=der) if der else s(v)), 0
    else:
        M, k = c.int("m", lo=2), c.int("k")
        q = fresh(c, "q", M, rnp.float64)
        c.assume(And(k >= 0, k < M))
        v = q.at(k)
        ra = s(q, der=der) if der else s(q)
        c.ensure("one value per point", num(ra.shape[0]) == M)
        r = ra.at(k)
    r = num(r._as_scalar_() if isinstance(r, SArr) else r)
    d = der + extra
    x, y, z = s._x, s._y, s._y2
    c.ensure("below the first knot: the line with the first slope", Implies(v < x.at(0), r == line(d, v, x.at(0), y.at(0), s.yprime1)))
    c.ensure("above the last knot: the line with the last slope", Implies(v > x.at(n - 1), r == line(d, v, x.at(n - 1), y.at(n - 1), s.yprimeN)))
    p = c.int("p")
    c.assume(And(p >= 0, p < n - 1, x.at(p) < v, v < x.at(p + 1)))
    if len(npx.got) == 1:
        pos = npx.got[0]
        pos = pos.at(k) if isinstance(pos, SArr) and pos.ndim else pos
        c.ensure("the interval found is the point's", num(pos) == p + 1)
        c.assume(num(pos) == p + 1)
    c.ensure("between knots: the cubic piece", r == piece(d, v, x.at(p), x.at(p + 1), y.at(p), y.at(p + 1), z.at(p), z.at(p + 1)))


def h_knots(c):
    """at a knot itself the value is the knot's (both neighbours agree, see lemma)"""
    m = LOAD.load("mass.mathstat.interpolate")
    m.np = npx = NPx(REALNP.setdefault("np", m.np if not isinstance(m.np, NPx) else m.np.real))
    n = c.int("n", lo=2)
    s = spline(c, m, m.CubicSpline, n)
    M, k, p = c.int("m", lo=2), c.int("k"), c.int("p")
    q = fresh(c, "q", M, rnp.float64)
    c.assume(And(k >= 0, k < M, p >= 0, p < n, q.at(k) == s._x.at(p)))
    slope = c.choose("slope")
    r = s(q, der=1).at(k) if slope else s(q).at(k)
    if len(npx.got) == 1:
        pos = npx.got[0].at(k)
        c.ensure("the interval found ends at the knot", num(pos) == p)
        c.assume(num(pos) == p)
    if not slope:
        c.ensure("passes through its knots", r == s._y.at(p))
        return
    d1 = r
    x, y, z = s._x, s._y, s._y2
    ok = Or(*[And(p >= 1, d1 == piece(1, x.at(p), x.at(p - 1), x.at(p), y.at(p - 1), y.at(p), z.at(p - 1), z.at(p))),
              And(p == 0, d1 == s.yprime1)])
    c.ensure("slope at a knot is the slope of an adjoining piece", ok)


def h_lemmas(c):
    """real-arithmetic facts about the pieces"""
    dx, b, g = c.real("dx"), c.real("b"), c.real("g")
    yl, yh, zl, zh, xl = (c.real(k) for k in ("yl", "yh", "zl", "zh", "xl"))
    c.assume(dx > 0)
    # polynomials in the scaled position b (v = xl + b*dx); sl is the chord slope
    sl = c.real("sl")
    c.assume(sl * dx == yh - yl)

    def P(der, t):
        a = 1 - t
        if der == 0:
            return a * yl + t * yh + ((a * a * a - a) * zl + (t * t * t - t) * zh) * dx * dx / 6
        if der == 1:
            return sl + ((-a * a + sfloat(1) / 3) * zl + (t * t - sfloat(1) / 3) * zh) * dx / 2
        return a * zl + t * zh
    v = xl + b * dx
    for d in (0, 1, 2):
        c.ensure("scaled form, derivative %d" % d, piece(d, v, xl, xl + dx, yl, yh, zl, zh) == P(d, b))
    # Taylor's formula is exact for every step g: so 1st/2nd/3rd are the derivatives of the value
    yh2 = yl + sl * dx

    def P0(t):
        a = 1 - t
        return a * yl + t * yh2 + ((a * a * a - a) * zl + (t * t * t - t) * zh) * dx * dx / 6
    h = g * dx
    c.ensure("value and its derivatives satisfy Taylor's formula exactly",
             P0(b + g) == P0(b) + h * P(1, b) + h * h * P(2, b) / 2 + g * h * h * (zh - zl) / 6)
    c.ensure("third derivative times the step is the curvature difference", piece(3, v, xl, xl + dx, yl, yh, zl, zh) * dx == zh - zl)
    c.ensure("ends: values", And(P(0, num(0)) == yl, P(0, num(1)) == yh))
    c.ensure("ends: curvatures", And(P(2, num(0)) == zl, P(2, num(1)) == zh))
    # slope at the ends of the piece
    c.ensure("ends: slopes", And(P(1, num(0)) == sl - dx * (zl / 3 + zh / 6), P(1, num(1)) == sl + dx * (zl / 6 + zh / 3)))
    # slope continuity at a knot between steps d0, d1 <=> the tridiagonal equation
    d0, d1, s0, s1, z0, z1, z2 = (c.real(k) for k in ("d0", "d1", "s0", "s1", "z0", "z1", "z2"))
    c.assume(And(d0 > 0, d1 > 0))
    c.ensure("slope continuity is the tridiagonal equation", Implies(d0 * z0 + 2 * (d0 + d1) * z1 + d1 * z2 == 6 * (s1 - s0),
             s0 + d0 * (z0 / 6 + z1 / 3) == s1 - d1 * (z1 / 3 + z2 / 6)))


# ------------------------------------------------------------ the tridiagonal solution
class Sys:
    """ghost: forward coefficients of the elimination, defined by recursion on the knot"""

    def __init__(self, c, n):
        self.c, self.n = c, n
        self.x, self.y = fresh(c, "x", n, rnp.float64), fresh(c, "y", n, rnp.float64)
        increasing(c, self.x, n)
        self.Fz, self.Uz = z3.Function("Fcoef", I, R), z3.Function("Ucoef", I, R)
        self.given = (c.choose("slope at first given"), c.choose("slope at last given"))
        self.s1, self.sN = c.real("slope1"), c.real("slopeN")
    def F(self, i): return SNum(self.Fz(num(i).e))
    def U(self, i): return SNum(self.Uz(num(i).e))
    def dx(self, i): return self.x.at(i + 1) - self.x.at(i)
    def chord(self, i): return (self.y.at(i + 1) - self.y.at(i)) / self.dx(i)
    def sig(self, i): return self.dx(i - 1) / (self.x.at(i + 1) - self.x.at(i - 1))
    def p(self, i): return self.sig(i) * self.F(i - 1) + 2
    def r(self, i): return self.chord(i) - self.chord(i - 1)

    def define(self, i):
        i = num(i)
        return [self.F(i) == (self.sig(i) - 1) / self.p(i),
                self.U(i) == (6 * self.r(i) / (self.x.at(i + 1) - self.x.at(i - 1)) - self.sig(i) * self.U(i - 1)) / self.p(i)]

    def base(self):
        if self.given[0]:
            return [self.F(0) == -0.5, self.U(0) == 3 / self.dx(num(0)) * (self.chord(num(0)) - self.s1)]
        return [self.F(0) == 0, self.U(0) == 0]


def inv_forward(e):
    g = ctx().ghost
    n, y2, u, i = g.n, e.self._y2, e.u, 1 + num(e._k)
    return [("coefficients", forall(lambda j: Implies(And(j >= 0, j < i), y2.at(j) == g.F(j)), pats=lambda j: g.F(j))),
            ("right sides", forall(lambda j: Implies(And(j >= 0, j < i), u.at(j) == g.U(j)), pats=lambda j: g.U(j))),
            ("later right sides untouched", forall(lambda j: Implies(And(j >= i, j < n - 1), u.at(j) == g.r(j)), pats=lambda j: u.at(j)))]


def inv_back(e):
    g = ctx().ghost
    n, y2 = g.n, e.self._y2
    k = n - 2 - num(e._k)          # next to be treated
    return [("solved", forall(lambda j: Implies(And(j > k, j < n - 1), y2.at(j) == g.F(j) * y2.at(j + 1) + g.U(j)), pats=lambda j: g.F(j))),
            ("still coefficients", forall(lambda j: Implies(And(j >= 0, j <= k), y2.at(j) == g.F(j)), pats=lambda j: g.F(j))),
            ("last", y2.at(n - 1) == e._entry.self._y2.at(n - 1) if num(e._k).e.eq(z3.IntVal(0)) else y2.at(n - 1) == g.last),
            ]


def h_solve(c):
    m = LOAD.load("mass.mathstat.interpolate")
    n = c.int("n", lo=2)
    g = Sys(c, n)
    c.ghost = g
    for b in g.base():
        c.assume(b)
    s = object.__new__(m.CubicSpline)
    s._x, s._y, s._n = g.x.copy(), g.y.copy(), n
    s._y2 = m.np.zeros(n, dtype=float)
    s.yprime1, s.yprimeN = (g.s1 if g.given[0] else None), (g.sN if g.given[1] else None)
    # ghost value of the last second derivative
    un = 3 / g.dx(n - 2) * (g.sN - g.chord(n - 2)) if g.given[1] else num(0)
    qn = sfloat(1) / 2 if g.given[1] else num(0)
    g.last = (un - qn * g.U(n - 2)) / (qn * g.F(n - 2) + 1)
    s._compute_y2()
    c.cover("solved")
    j = c.int("j")
    c.assume(And(j >= 0, j < n - 1))
    z = s._y2
    c.ensure("back-substitution relation at every knot", z.at(j) == g.F(j) * z.at(j + 1) + g.U(j))
    c.ensure("last knot", z.at(n - 1) == g.last)
    c.ensure("the knots themselves are not changed", And(s._x.at(j) == g.x.at(j), s._y.at(j) == g.y.at(j)))
    if g.given[0]:
        c.ensure("a given first slope is kept", s.yprime1 == g.s1)
    else:
        c.ensure("natural: the first slope is the piece's", s.yprime1 == g.chord(num(0)) - g.dx(num(0)) * (z.at(0) / 3 + z.at(1) / 6))
    if g.given[1]:
        c.ensure("a given last slope is kept", s.yprimeN == g.sN)
    else:
        c.ensure("natural: the last slope is the piece's", s.yprimeN == g.chord(n - 2) + g.dx(n - 2) * (z.at(n - 2) / 6 + z.at(n - 1) / 3))
    c.ensure("steps", And(s.xstep.at(j) == g.dx(j), s.ystep.at(j) == g.y.at(j + 1) - g.y.at(j)))


def h_algebra(c):
    """from the recursions to the tridiagonal equation and the end conditions (one knot, no quantifiers)"""
    d0, d1, F0, U0, F1, U1, z0, z1, z2, r = (c.real(k) for k in ("d0", "d1", "F0", "U0", "F1", "U1", "z0", "z1", "z2", "r"))
    c.assume(And(d0 > 0, d1 > 0, F0 > -1, F0 <= 0))
    sig, p = c.real("sig"), c.real("p")
    c.assume(And(sig * (d0 + d1) == d0, p == sig * F0 + 2))
    c.ensure("weight between 0 and 1", And(sig > 0, sig < 1))
    c.assume(And(sig > 0, sig < 1))
    c.ensure("pivot above 1", p > 1)
    c.assume(p > 1)
    c.assume(F1 * p == sig - 1)
    c.ensure("coefficient stays between -1 and 0", And(F1 > -1, F1 <= 0))
    t = c.real("t")
    c.assume(t * (d0 + d1) == 6 * r)                      # 6 r / (x[i+1]-x[i-1])
    c.assume(U1 * p == t - sig * U0)
    c.assume(And(z0 == F0 * z1 + U0, z1 == F1 * z2 + U1))
    c.ensure("scaled equation", sig * z0 + 2 * z1 + (1 - sig) * z2 == t)
    eq = sig * z0 + 2 * z1 + (1 - sig) * z2
    c.assume(eq == t)
    w = d0 + d1
    c.ensure("multiplied out", w * eq == d0 * z0 + 2 * w * z1 + d1 * z2)
    c.assume(w * eq == d0 * z0 + 2 * w * z1 + d1 * z2)
    c.ensure("the tridiagonal equation", d0 * z0 + 2 * (d0 + d1) * z1 + d1 * z2 == 6 * r)


def h_ends(c):
    d, ch, sl, z0, z1, F_, U_ = (c.real(k) for k in ("d", "chord", "slope", "z0", "z1", "F", "U"))
    c.assume(d > 0)
    # first end, slope given: z0 = -z1/2 + (3/d)(chord - slope)
    c.ensure("given first slope is the piece's slope", Implies(z0 == -z1 / 2 + 3 / d * (ch - sl), sl == ch - d * (z0 / 3 + z1 / 6)))
    # last end: z1 = (un - U/2)/(F/2 + 1), z0 = F z1 + U
    c.assume(And(F_ > -1, F_ <= 0))
    un, q = 3 / d * (sl - ch), F_ / 2 + 1
    c.ensure("last pivot is positive", q > 0)
    c.assume(And(z1 * q == un - U_ / 2, z0 == F_ * z1 + U_))
    c.ensure("given last slope is the piece's slope", sl == ch + d * (z0 / 6 + z1 / 3))


# ------------------------------------------------------------ construction, derivatives, linear combination
def h_init(c):
    m = LOAD.load("mass.mathstat.interpolate")
    n = c.int("n", lo=2)
    x, y = fresh(c, "x0", n, rnp.float64), fresh(c, "y0", n, rnp.float64)
    c.assume(forall(lambda i, j: Implies(And(i >= 0, i < j, j < n), Not(x.at(i) == x.at(j))), n=2, pats=lambda i, j: [(x.at(i), x.at(j))]))
    got = []

    class S(m.CubicSpline):
        def _compute_y2(self): got.append(1)
    s1, sN = (c.real("s1") if c.choose("first slope") else None), (c.real("sN") if c.choose("last slope") else None)
    s = S(x, y, s1, sN)
    k = c.int("k")
    c.assume(And(k >= 0, k < n))
    c.ensure("one solve", got == [1])
    c.ensure("slopes as given", s.yprime1 is s1 and s.yprimeN is sN)
    c.ensure("all knots, ordered", And(num(s._n) == n, num(s._x.shape[0]) == n, num(s._y.shape[0]) == n, num(s._y2.shape[0]) == n))
    j = c.int("j")
    c.assume(And(j >= 0, j < n - 1))
    c.ensure("knots increase", s._x.at(j) < s._x.at(j + 1))
    c.ensure("every given point is a knot", exists(lambda i: And(i >= 0, i < n, s._x.at(i) == x.at(k), s._y.at(i) == y.at(k))))
    c.ensure("every knot is a given point", exists(lambda i: And(i >= 0, i < n, s._x.at(k) == x.at(i), s._y.at(k) == y.at(i))))


def h_derivative(c):
    m = LOAD.load("mass.mathstat.interpolate")
    n = c.int("n", lo=2)
    s = spline(c, m, m.CubicSplineFunction, n)
    der0, der = 0, 0
    while der0 < 3 and c.choose("self is a higher derivative"):
        der0 += 1
    while der < 4 and c.choose("ask higher"):
        der += 1
    s.der = der0
    made = []

    class Rec(m.CubicSplineFunction):
        def __init__(self, x, y, yprime1=None, yprimeN=None, der=0): made.append((x, y, yprime1, yprimeN, der))
    keep = m.CubicSplineFunction
    m.CubicSplineFunction = Rec
    try:
        r = s.derivative(der)
    finally:
        m.CubicSplineFunction = keep
    if der0 + der > 3:
        c.ensure("beyond the third: zero", not made and isinstance(r, m.ConstantFunction) and r.v == 0)
        return
    c.ensure("the same knots and end slopes, order raised by the request", len(made) == 1 and made[0][4] == der0 + der)
    k = c.int("k")
    c.assume(And(k >= 0, k < n))
    x, y, a, b, _ = made[0]
    c.ensure("same curve", And(as_arr(x).at(k) == s._x.at(k), as_arr(y).at(k) == s._y.at(k), a == s.yprime1, b == s.yprimeN))


def h_linterp(c):
    m = LOAD.load("mass.mathstat.interpolate")
    n = c.int("n", lo=2)
    s1 = spline(c, m, m.CubicSpline, n)
    s2 = object.__new__(m.CubicSpline)
    s2._x, s2._n = s1._x, n
    s2._y, s2._y2, s2.yprime1, s2.yprimeN = fresh(c, "y_", n, rnp.float64), fresh(c, "z_", n, rnp.float64), c.real("a1"), c.real("aN")
    s2.xstep, s2.ystep = s1.xstep, s2._y[1:] - s2._y[:-1]
    f = c.real("f")
    try:
        t = m.LinterpCubicSpline(s1, s2, f)
    except ValueError:
        c.ensure("equal knots are accepted", False)
        return
    k = c.int("k")
    c.assume(And(k >= 0, k < n))
    mix = lambda a, b: f * a + (1 - f) * b
    c.ensure("values, curvatures and end slopes are mixed", And(t._y.at(k) == mix(s1._y.at(k), s2._y.at(k)), t._y2.at(k) == mix(s1._y2.at(k), s2._y2.at(k)),
             t.yprime1 == mix(s1.yprime1, s2.yprime1), t.yprimeN == mix(s1.yprimeN, s2.yprimeN)))
    c.assume(k < n - 1)
    c.ensure("same knots", And(num(t._n) == n, t._x.at(k) == s1._x.at(k), t.xstep.at(k) == s1._x.at(k + 1) - s1._x.at(k)))
    a, b, yl, yh, zl, zh, yl2, yh2, zl2, zh2, q = (c.real(x) for x in ("a", "b", "yl", "yh", "zl", "zh", "yl2", "yh2", "zl2", "zh2", "q"))
    V = lambda yl, yh, zl, zh: a * yl + b * yh + ((a * a * a - a) * zl + (b * b * b - b) * zh) * q
    c.ensure("hence the curve is the mixture of the curves", V(mix(yl, yl2), mix(yh, yh2), mix(zl, zl2), mix(zh, zh2)) == mix(V(yl, yh, zl, zh), V(yl2, yh2, zl2, zh2)))


SPECS = {("_compute_y2", 0): LoopSpec(inv_forward, types={"sig": "real", "p": "real"}, dead=(), body_lemma=lambda e: ctx().ghost.define(1 + num(e._k))),
         ("_compute_y2", 1): LoopSpec(inv_back)}

HARNESSES = [
    Harness("construction", h_init, [F + "CubicSpline.__init__"]),
    Harness("tridiagonal_solution", h_solve, [F + "CubicSpline._compute_y2"], specs=SPECS),
    Harness("elimination_algebra", h_algebra, [F + "CubicSpline._compute_y2"]),
    Harness("end_conditions", h_ends, [F + "CubicSpline._compute_y2"]),
    Harness("evaluation", h_eval, [F + "CubicSpline.__call__", F + "CubicSplineFunction.__call__"]),
    Harness("at_knots", h_knots, [F + "CubicSpline.__call__"]),
    Harness("piece_calculus", h_lemmas, [F + "CubicSpline.__call__"]),
    Harness("derivative_objects", h_derivative, [F + "CubicSplineFunction.derivative"]),
    Harness("linear_combination", h_linterp, [F + "LinterpCubicSpline.__init__"]),
]
