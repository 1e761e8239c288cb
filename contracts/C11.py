"""Energy calibration: the table after any addition or removal, the exact curves through any number of points, staleness, persistence"""
import types
import numpy as rnp
import z3
import symnp
from pyvc import *
from symnp import fresh, lazy, dt_of, SArr, as_arr
from loader import Loader
from harness import Harness

F = "mass/calibration/energy_calibration.py:EnergyCalibration."
LOAD = Loader()
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
REAL = {}


def module():
    m = LOAD.load("mass.calibration.energy_calibration")
    for k in ("np", "CubicSplineFunction", "Identity", "ExponentialFunction", "LogFunction", "brentq", "STANDARD_FEATURES"):
        REAL.setdefault(k, getattr(m, k))
        setattr(m, k, REAL[k])
    return m


# ------------------------------------------------------------------ the table
class Nm(Ghost):
    """a name: a number, 0 is the empty name"""
    def __init__(self, w, k): self.w, self.k = w, num(k)
    def __eq__(self, o): return self.k == (o.k if isinstance(o, Nm) else 0 if o == "" else -1)
    def __ne__(self, o): return Not(self == o)
    __hash__ = None
    def __bool__(self): return bool(self.k != 0)
    def _subst_(self, sub): return Nm(self.w, SNum(sub(self.k.e)))
    def encode(self, *a): return self
    def decode(self, *a): return self
    def startswith(self, p): return SBool(self.w.PRE(self.k.e))
    def __format__(self, s): return "name"


class Names(Ghost):
    """a list of names"""
    def __init__(self, w, n, f): self.w, self.n, self.f = w, num(n), f
    @staticmethod
    def of(w, x):
        if isinstance(x, Names):
            return x
        if hasattr(x, "slen"):
            return Names(w, x.slen(), lambda k: num(x.elem(k).k))
        xs = list(x)
        r = Names(w, 0, lambda k: num(0))
        for y in xs:
            r.append(y)
        return r
    def code(self, k): return num(self.f(num(k)))
    def slen(self): return self.n
    def elem(self, k): return Nm(self.w, self.code(k))
    def __getitem__(self, k):
        if isinstance(k, slice):
            lo = num(0 if k.start is None else k.start)
            hi = self.n if k.stop is None else num(k.stop)
            f = self.f
            return Names(self.w, hi - lo, lambda j: f(num(j) + lo))
        if isinstance(k, SArr):
            k = k._as_scalar_()
        ctx().ensure("name index in range", And(num(k) >= 0, num(k) < self.n))
        return self.elem(k)
    def __setitem__(self, k, v):
        f, k, v = self.f, num(k._as_scalar_() if isinstance(k, SArr) else k), v.k if isinstance(v, Nm) else num(0)
        ctx().ensure("name index in range", And(k >= 0, k < self.n))
        self.f = lambda j: ite(num(j) == k, v, f(num(j)))
    def append(self, v): self.insert(self.n, v)
    def insert(self, k, v):
        f, k, v = self.f, num(k), v.k if isinstance(v, Nm) else num(0)
        self.f, self.n = (lambda j: ite(num(j) < k, f(num(j)), ite(num(j) == k, v, f(num(j) - 1)))), self.n + 1
    def pop(self, k):
        f, k = self.f, num(k._as_scalar_() if isinstance(k, SArr) else k)
        ctx().ensure("name index in range", And(k >= 0, k < self.n))
        self.f, self.n = (lambda j: ite(num(j) < k, f(num(j)), f(num(j) + 1))), self.n - 1
    def __delitem__(self, k): self.pop(k)
    def __add__(self, o): r = self._list_(); [r.append(x) for x in o] if isinstance(o, list) else None; return r if isinstance(o, list) else Names(self.w, self.n + o.n, lambda j: ite(num(j) < self.n, self.f(num(j)), o.f(num(j) - self.n)))
    def _list_(self): return Names(self.w, self.n, self.f)
    copy = _list_
    def contains(self, x): return self.w.where(x) >= 0
    def index(self, x):
        w = self.w.where(x)
        ctx().ensure("an existing name is looked up", w >= 0)
        return w


class World:
    def __init__(self, c, n, f):
        self.n, self.f0 = n, f
        self.PRE = z3.Function(c.fname("prefixed"), I, B)
        self.asked = {}

    def where(self, x):
        """first position of the name in the original table (-1: absent)"""
        c = ctx()
        key = x.k.e.sexpr()
        if key not in self.asked:
            p = c.int("where", lo=-1)
            c.axiom(And(p < self.n, Implies(p >= 0, num(self.f0(p)) == x.k)))
            c.axiom(forall(lambda j: Implies(And(j >= 0, j < self.n, Or(p < 0, j < p)), num(self.f0(j)) != x.k)))
            self.asked[key] = p
        return self.asked[key]


FIELDS = ["_ph", "_energies", "_dph", "_de"]


def table(c, m, lo=0):
    """a calibration with a valid table of any size"""
    n = c.int("npts", lo=lo)
    nf = z3.Function(c.fname("nm"), I, I)
    w = World(c, n, lambda k: SNum(nf(num(k).e)))
    cal = object.__new__(m.EnergyCalibration)
    for k in FIELDS:
        setattr(cal, k, fresh(c, k, n, rnp.float64))
    cal._names = Names(w, n, w.f0)
    cal.npts = n
    cal._curvetype, cal._use_approximation, cal._use_GPR, cal.nonlinearity = 0, False, True, c.real("nonlin")
    cal._ph2e, cal._e2ph, cal._e2phwarned = "old curve", "old inverse", False
    cal._model_is_stale = c.choose("stale")
    for k in ("_ph", "_energies"):
        a = getattr(cal, k)
        c.axiom(forall(lambda i, j: Implies(And(i >= 0, i < j, j < n), a.at(i) < a.at(j)), 2, pats=lambda i, j: [(a.at(i), a.at(j))]))
        c.axiom(forall(lambda i: Implies(And(i >= 0, i < n), a.at(i) > 0), pats=lambda i: a.at(i)))
    w.old = {k: getattr(cal, k).snap() for k in FIELDS}
    c.w = w
    return cal, w, n


class Perms:
    """every permutation the code sorts by (to name the new position of an old point)"""
    def __enter__(self):
        self.p, self.real = [], symnp.argsort

        def rec(a, kind=None):
            r = self.real(a, kind)
            if getattr(r, "_perm", None):
                self.p.append(r._perm)
            return r
        symnp.argsort = rec
        return self
    def __exit__(self, *a): symnp.argsort = self.real


def unchanged(c, cal, w, n):
    i = c.int("i", lo=0)
    c.ensure("same number of points", And(num(cal.npts) == n, *[num(getattr(cal, k).shape[0]) == n for k in FIELDS], Names.of(w, cal._names).slen() == n))
    c.assume(i < n)
    c.ensure("a refused point leaves every point as it was", And(*[num(getattr(cal, k).at(i)) == num(w.old[k](i)) for k in FIELDS], Names.of(w, cal._names).code(i) == w.f0(i)))


def point(cal, w, p):
    return [num(getattr(cal, k).at(p)) for k in FIELDS] + [Names.of(w, cal._names).code(p)]


def h_add(c):
    m = module()
    cal, w, n = table(c, m)
    ph, e = c.real("ph"), c.real("energy")
    name = Nm(w, c.int("name", lo=0))
    dph = None if c.choose("default height error") else c.real("dph")
    de = None if c.choose("default energy error") else c.real("de")
    over = c.choose("overwrite")
    err = num(0) + 0.01 if de is None else num(de)
    with Perms() as P:
        try:
            cal.add_cal_point(ph, e, name, dph, de, overwrite=over)
        except PathDone:
            raise
        except Exception as x:
            if isinstance(x, (AttributeError, TypeError, IndexError, KeyError, AssertionError, NameError, Unsupported)):
                raise
            unchanged(c, cal, w, n)
            return
    nn = num(cal._ph.shape[0])
    known = And(name.k != 0, w.where(name) >= 0)
    c.ensure("one array element per point", And(num(cal.npts) == nn, *[num(getattr(cal, k).shape[0]) == nn for k in FIELDS], Names.of(w, cal._names).slen() == nn))
    c.ensure("curve to be recomputed", sbool(cal._model_is_stale is True or cal._model_is_stale))
    new = [ph, e, num(dph) if dph is not None else ph * 0.001, err, None]
    q = c.int("q", lo=0)
    c.assume(q < nn)
    c.ensure("sorted by pulse height and by energy", Implies(q + 1 < nn, And(cal._ph.at(q) <= cal._ph.at(q + 1), cal._energies.at(q) <= cal._energies.at(q + 1))))
    if bool(nn == n + 1):
        u = n
        c.ensure("a new point only when none has its name", Not(known))
        j = c.int("j", lo=0)
        c.ensure("a new point only when none is at its energy", Implies(j < n, Or(E0(w, j) - e > err, e - E0(w, j) > err)))
        nm = name.k
    else:
        c.ensure("otherwise one point is replaced", And(nn == n, sbool(over)))
        if bool(known):
            u = w.where(name)
        else:
            u = num((abs(lazy((n,), lambda i: e - E0(w, i), dt_of(rnp.float64)))).argmin())
            d = e - E0(w, u)
            c.ensure("the point at the new energy is replaced", And(d <= err, -d <= err))
        nm = ite(name.k != 0, name.k, num(w.f0(u)))
    new[4] = nm
    same = lambda p, vals: And(*[x == y for x, y in zip(point(cal, w, p), vals)])
    inv = [lambda k, g=g: SNum(g[1](num(k).e)) for g in P.p[-1:]] + [lambda k, g=g: SNum(g[1](num(k).e)) for g in P.p[:1]]
    fwd = [lambda k, g=g: SNum(g[0](num(k).e)) for g in P.p[-1:]] + [lambda k, g=g: SNum(g[0](num(k).e)) for g in P.p[:1]]
    if not inv:
        raise Unsupported("the new point's position is not found by sorting")
    o = c.int("o", lo=0)
    oldp = lambda i: [num(w.old[k](i)) for k in FIELDS] + [num(w.f0(i))]
    c.assume(And(o < n, o != u))
    inside = lambda p: And(p >= 0, p < nn)
    c.ensure("every other point is kept", Or(*[And(inside(f(o)), same(f(o), oldp(o))) for f in inv]))
    c.ensure("the new point is there", Or(*[And(inside(f(u)), same(f(u), new)) for f in inv]))
    c.ensure("nothing else is", Or(*[ite(f(q) == u, same(q, new), And(f(q) >= 0, f(q) < n, same(q, oldp(f(q))))) for f in fwd]))


def E0(w, j): return num(w.old["_energies"](j))


def h_remove_idx(c):
    m = module()
    cal, w, n = table(c, m, lo=1)
    k = c.int("k", lo=0)
    c.assume(k < n)
    cal._remove_cal_point_idx(k)
    c.ensure("one point fewer", And(num(cal.npts) == n - 1, *[num(getattr(cal, f).shape[0]) == n - 1 for f in FIELDS], Names.of(w, cal._names).slen() == n - 1))
    c.ensure("curve to be recomputed", sbool(cal._model_is_stale is True))
    i = c.int("i", lo=0)
    c.assume(i < n - 1)
    s = ite(i < k, i, i + 1)
    c.ensure("the other points in order", And(*[x == y for x, y in zip(point(cal, w, i), [num(w.old[f](s)) for f in FIELDS] + [num(w.f0(s))])]))


class Gone(Ghost):
    """which original points are gone; current positions below `low` are original positions"""
    def __init__(self, c, w, n): self.c, self.w, self.gone, self.low, self.calls = c, w, z3.K(I, z3.BoolVal(False)), n, num(0)
    def drop(self, k):
        k = num(k._as_scalar_() if isinstance(k, SArr) else k)
        self.c.ensure("index still means the selected point", And(k >= 0, k < self.low))
        self.gone, self.low, self.calls = z3.Store(self.gone, k.e, z3.BoolVal(True)), k, self.calls + 1
    def has(self, k): return SBool(z3.Select(self.gone, num(k).e))
    def havoc(self, c): self.gone, self.low, self.calls = z3.Array(c.fname("gone"), I, B), c.int("low", lo=0), c.int("calls", lo=0)


def h_remove_energy(c):
    m = module()
    cal, w, n = table(c, m)
    e, de = c.real("e"), c.real("de")
    c.g = g = Gone(c, w, n)
    c.sel = lambda j: And(E0(w, j) - e < de, e - E0(w, j) < de)
    cal._remove_cal_point_idx = g.drop
    cal.remove_cal_point_energy(e, de)
    i = c.int("i", lo=0)
    c.assume(i < n)
    c.ensure("exactly the points within the interval are removed", Iff(g.has(i), c.sel(i)))


def re_inv(e):
    c = ctx()
    g, k, N = c.g, num(e._k), num(e._n)
    at = lambda j: num(e._it.elem(j))
    return [("removed", forall(lambda i: Iff(g.has(i), And(i >= 0, i < c.w.n, c.sel(i), i >= g.low)), pats=lambda i: g.has(i))),
            ("low", And(g.low >= 0, g.low <= c.w.n, Implies(k == N, forall(lambda i: Implies(And(i >= 0, i < g.low), Not(c.sel(i))), pats=lambda i: E0(c.w, i))))),
            ("next below", Implies(k < N, at(k) < g.low)),
            ("next is the last selected below", Implies(k < N, forall(lambda i: Implies(And(i > at(k), i < g.low), Not(c.sel(i))), pats=lambda i: E0(c.w, i))))]


REN = {("remove_cal_point_energy", 0): LoopSpec(inv=re_inv, havoc=lambda c, e: c.g.havoc(c), dead=("idx",), handles=("self",))}


def h_remove_name(c):
    m = module()
    cal, w, n = table(c, m)
    x = Nm(w, c.int("x", lo=1))
    c.assume(w.where(x) >= 0)
    got = []
    cal._remove_cal_point_idx = lambda k: got.append(num(k))
    try:
        cal.remove_cal_point_name(x)
    except ValueError:
        pass
    c.ensure("the point of that name", And(sbool(len(got) == 1), got[0] == w.where(x)))


class Calls:
    def __init__(self, c): self.n, self.hit = num(0), z3.K(I, z3.BoolVal(False))
    def havoc(self, c): self.n, self.hit = c.int("calls", lo=0), z3.Array(c.fname("hit"), I, B)


def h_remove_prefix(c):
    m = module()
    cal, w, n = table(c, m)
    c.g = g = Calls(c)

    def rm(x):
        c.ensure("only names with the prefix are removed", SBool(w.PRE(x.k.e)))
        g.n, g.hit = g.n + 1, z3.Store(g.hit, x.k.e, z3.BoolVal(True))
    cal.remove_cal_point_name = rm
    r = cal.remove_cal_point_prefix("p")
    i = c.int("i", lo=0)
    c.assume(i < n)
    c.ensure("every point whose name has the prefix is removed, no other", Iff(SBool(z3.Select(g.hit, num(w.f0(i)).e)), SBool(w.PRE(num(w.f0(i)).e))))
    c.ensure("number removed is returned", num(-1 if r is None else r) == g.n)


def rp_inv(e):
    c = ctx()
    g, w, k = c.g, c.w, num(e._k)
    out = [("so far", forall(lambda i: Implies(And(i >= 0, i < k, SBool(w.PRE(num(w.f0(i)).e))), SBool(z3.Select(g.hit, num(w.f0(i)).e))), pats=lambda i: num(w.f0(i)))),
           ("only those", forall(lambda x: Implies(SBool(z3.Select(g.hit, x.e)), SBool(w.PRE(x.e))), pats=lambda x: SBool(z3.Select(g.hit, x.e))))]
    r = e.get("n_removed")
    if r is not None:
        out.append(("count", num(r) == g.n))
    return out


RPX = {("remove_cal_point_prefix", 0): LoopSpec(inv=rp_inv, havoc=lambda c, e: c.g.havoc(c), dead=("name",), handles=("self",))}


# ------------------------------------------------------------------ the curves
def rl(x): return z3.ToReal(num(x).e) if num(x).is_int else num(x).e
EXP, LOG, POW = z3.Function("exp", R, R), z3.Function("log", R, R), z3.Function("pow", R, R, R)


def log_(x):
    c = ctx()
    x = num(x)
    r = SNum(LOG(rl(x)))
    c.axiom(Implies(x > 0, SNum(EXP(r.e)) == x))
    return r


class Fn(Ghost):
    """a function object, by the contracts of C12 (algebra) and C13 (splines): its value at any point"""
    def __init__(self, f, kind="", knots=None): self.f, self.kind, self.knots = f, kind, knots
    def __call__(self, x, der=0):
        if der != 0:
            raise Unsupported("derivative")
        if isinstance(x, GridAll):
            return OnGrid(self, x)
        return num(self.f(num(x)))
    @staticmethod
    def of(o): return o if isinstance(o, Fn) else Fn(lambda x: num(o))
    def __lshift__(self, o): return Fn(lambda x: self.f(o.f(x)))
    def __add__(self, o): return Fn(lambda x: self.f(x) + Fn.of(o).f(x))
    def __sub__(self, o): return Fn(lambda x: self.f(x) - Fn.of(o).f(x))
    def __mul__(self, o): return Fn(lambda x: self.f(x) * Fn.of(o).f(x))
    def __truediv__(self, o): return Fn(lambda x: self.f(x) / Fn.of(o).f(x))
    def __neg__(self): return Fn(lambda x: -self.f(x))
    def __pow__(self, n):
        def f(x):
            v = self.f(x)
            r = SNum(POW(rl(v), rl(n)))
            ctx().axiom(Implies(v == 1, r == 1))
            return r
        return Fn(f)
    __radd__, __rmul__ = __add__, __mul__


class OnGrid(Ghost):
    def __init__(self, fn, grid): self.fn, self.grid = fn, grid


def cubic(x, y, *a, **k):
    c = ctx()
    if isinstance(x, OnGrid):
        c.ensure("inverse: the curve's values against the pulse heights", sbool(x.grid is y))
        return types.SimpleNamespace(inverse_of=x.fn, grid=y)
    x, y = as_arr(x), as_arr(y)
    n = x.shape[0]
    i, j = c.int("si", lo=0), c.int("sj", lo=0)
    for t in (x.at(i), x.at(j)):
        hint(t)
    if not c.provable(num(y.shape[0]) == num(n)):
        c.ensure("one value per knot", num(y.shape[0]) == num(n))
    if hasattr(c, "mono"):
        c.mono()
    c.ensure("knots in increasing order, all different", Implies(And(i < j, j < n), num(x.at(i)) < num(x.at(j))))
    S = z3.Function(c.fname("spline"), R, R)
    xs, ys = x.snap(), y.snap()
    c.knots = lambda i: SNum(S(rl(xs(i)))) == num(ys(i))
    c.allknots = lambda: forall(lambda i: Implies(And(i >= 0, i < n), c.knots(i)), pats=lambda i: num(xs(i)))
    return Fn(lambda v: SNum(S(rl(v))), "spline")


def hint(t): pass


class Seg(Ghost):
    """np.linspace(a, b, n), without its first element once sliced"""
    def __init__(self, a, b, n, open_=False): self.a, self.b, self.n, self.open_ = num(a), num(b), num(n), open_
    def __getitem__(self, k):
        ctx().ensure("the first point of a segment is dropped", sbool(isinstance(k, slice) and k.start == 1 and k.stop is None and k.step is None))
        return Seg(self.a, self.b, self.n, True)


class Grid(Ghost):
    """segments joined end to end, from 0 exclusive: `last` reached, calibration points 0..done-1 covered"""
    def __init__(self, last, done): self.last, self.done = num(last), num(done)
    @staticmethod
    def of(x):
        if isinstance(x, Grid):
            return x
        g = Grid(0, 0)
        for s in x:
            g.append(s)
        return g
    def append(self, s):
        c, ph = ctx(), ctx().w.old["_ph"]
        c.ensure("segments join, run upwards and have an end point", And(sbool(s.open_), s.a == self.last, s.b > s.a, s.n >= 2))
        self.done = num(ite(And(self.done < c.w.n, s.b == num(ph(self.done))), self.done + 1, self.done))
        self.last = s.b


class GridAll(Ghost):
    def __init__(self, g): self.g = g


class NpC:
    def __init__(self, c): self.c = c
    def __getattr__(self, k): return getattr(REAL["np"], k)
    def linspace(self, a, b, n=50, **k): return Seg(a._as_scalar_() if isinstance(a, SArr) else a, b._as_scalar_() if isinstance(b, SArr) else b, n)
    def hstack(self, x):
        if isinstance(x, Grid) or (isinstance(x, list) and x and isinstance(x[0], Seg)):
            return GridAll(Grid.of(x))
        return REAL["np"].hstack(x)
    concatenate = hstack
    def argsort(self, a, *args, **k):
        a = as_arr(a)
        i, j = self.c.int("ai", lo=0), self.c.int("aj", lo=0)
        self.c.ensure("the table is in order", Implies(And(i < j, j < num(a.shape[0])), num(a.at(i)) < num(a.at(j))))
        self.c.note_assumption("argsort of a strictly increasing array is 0, 1, 2, ...")
        return lazy((num(a.shape[0]),), lambda k: num(k), dt_of(rnp.int64))
    def log(self, x):
        if isinstance(x, SArr):
            f = x.snap()
            return lazy(x.shape, lambda *i: log_(f(*i)), x._dt)
        return log_(x)


def curve_module(c):
    m = module()
    m.np, m.CubicSplineFunction = NpC(c), cubic
    m.Identity = lambda: Fn(lambda x: x)
    m.ExponentialFunction = lambda: Fn(lambda x: SNum(EXP(rl(x))))
    m.LogFunction = lambda: Fn(log_)      # from 1e-6 on

    def root(f, a, b, **k):
        if hasattr(c, "allknots"):
            c.axiom(c.allknots())
        fa, fb = num(f(num(a))), num(f(num(b)))
        c.ensure("the root searched for is bracketed", Or(And(fa >= 0, fb <= 0), And(fa <= 0, fb >= 0)))
        return c.real("root")
    m.brentq = root
    return m


def h_curve(kind):
    def h(c):
        m = curve_module(c)
        cal, w, n = table(c, m, lo=1)
        ph, e = w.old["_ph"], w.old["_energies"]
        c.assume(forall(lambda i: Implies(And(i >= 0, i < n), num(ph(i)) >= sfloat(1) / 1000000), pats=lambda i: num(ph(i))))
        cal._curvetype = m.EnergyCalibration.CURVETYPE.index(kind)
        one = c.choose("one point")
        c.assume((n == 1) if one else (n >= 2))
        # log is increasing
        a_, b_ = z3.Reals("la lb")
        c.axiom(z3.ForAll([a_, b_], z3.Implies(z3.And(0 < a_, a_ < b_), LOG(a_) < LOG(b_)), patterns=[z3.MultiPattern(LOG(a_), LOG(b_))]))
        try:
            cal._update_exactcurves()
        except PathDone:
            raise
        except Exception as x:
            if type(x) is not Exception:
                raise
            c.ensure("refused only for one point and a curve that cannot use it", And(sbool(one), sbool(kind in ("linear", "linear+0", "loggain"))))
            return
        i = c.int("i", lo=0)
        c.assume(i < n)
        x, y = num(ph(i)), num(e(i))
        if hasattr(c, "knots"):
            for j in (i, i + 1):        # the spline's knots (linear+0 may start with an additional one)
                c.assume(Implies(And(j >= 0, j < n + (1 if kind == "linear+0" else 0)), c.knots(j)))
        if kind == "loggain" and not one:
            # exp(-log(a/b)) = b/a for positive a, b
            g = LOG(rl(x / y))
            c.axiom(SNum(EXP(-g)) * SNum(EXP(g)) == 1)
            log_(x / y)
        log_(x), log_(y)
        v = cal._ph2e(x)
        c.ensure("the curve passes through every point", v == y)
        if hasattr(cal._e2ph, "inverse_of"):
            c.ensure("the inverse is that of this curve", sbool(cal._e2ph.inverse_of is cal._ph2e))
    return h


def grid_inv(e):
    c = ctx()
    g, ph = Grid.of(e.ph_pts) if not isinstance(e.ph_pts, Grid) else e.ph_pts, c.w.old["_ph"]
    k = num(e._k)
    return [("grid", And(g.done == k + 1, g.last == num(ph(k))))]


GRIDL = LoopSpec(inv=grid_inv, types={"ph_pts": lambda c, e: Grid(c.real("last"), c.int("done", lo=0))}, dead=("npts", "i"))


def h_update(c):
    """_update_converters: table sorted, curve and inverse of the new table, not stale afterwards"""
    m = curve_module(c)
    cal, w, n = table(c, m)
    calls = []
    cal._use_approximation = c.choose("approximate")
    f = z3.Function(c.fname("curve"), R, R)

    def exact(): calls.append("exact"); cal._ph2e = Fn(lambda x: SNum(f(rl(x))))
    def approx(*a): calls.append("approx"); cal._ph2e = Fn(lambda x: SNum(f(rl(x))))
    cal._update_exactcurves, cal._update_approximators = exact, approx
    cal._update_converters()
    c.ensure("curve is current", sbool(cal._model_is_stale is False))
    i = c.int("i", lo=0)
    if bool(n == 0):
        x = c.real("x")
        c.ensure("without points energy equals height", And(num(cal._ph2e(x)) == x, num(cal._e2ph(x)) == x))
        return
    c.ensure("curve rebuilt once from the table", sbool(len(calls) == 1))
    c.ensure("exact unless approximation is asked for", Or(sbool(calls == ["exact"]), And(sbool(cal._use_approximation), n >= 3)))
    g = cal._e2ph
    c.ensure("inverse of the new curve", sbool(getattr(g, "inverse_of", None) is cal._ph2e))
    c.ensure("inverse tabulated at every calibration point and beyond", And(g.grid.g.done == n, g.grid.g.last > num(cal._ph.at(n - 1))))
    c.assume(i < n)
    c.ensure("points stay in order", And(*[x == y for x, y in zip(point(cal, w, i), [num(w.old[k](i)) for k in FIELDS] + [num(w.f0(i))])]))


# ------------------------------------------------------------------ which curve is used
def h_convert(which):
    def h(c):
        m = module()
        cal = object.__new__(m.EnergyCalibration)
        stale = c.choose("stale")
        cal._model_is_stale = stale
        cal._use_approximation = True
        used = []
        arr = c.choose("array")
        n = c.int("n", lo=1)
        x = fresh(c, "x", n, rnp.float64) if arr else c.real("x")
        f = {k: z3.Function(c.fname(k), R, R) for k in ("old", "new")}

        def curve(k):
            def g(v, der=0):
                used.append((k, der, v))
                if isinstance(v, SArr):
                    s = v.snap()
                    return lazy(v.shape, lambda i: SNum(f[k](rl(s(i)))), dt_of(rnp.float64))
                return SNum(f[k](rl(v)))
            return g

        def update():
            cal._ph2e = cal._e2ph = cal._uncertainty = curve("new")
            cal._model_is_stale = False
        cal._update_converters = update
        cal._ph2e = cal._e2ph = cal._uncertainty = curve("old")
        k = "new" if stale else "old"
        out = getattr(cal, which)(x)
        c.ensure("the current table's curve is used", sbool(all(u[0] == k for u in used) and len(used) >= 1))
        if which in ("ph2energy", "__call__", "energy2ph", "e2ph", "ph2uncertainty"):
            j = c.int("j", lo=0)
            c.assume(j < n)
            a = num(out.at(j)) if arr else num(out._as_scalar_() if isinstance(out, SArr) else out)
            c.ensure("value of the curve", a == SNum(f[k](rl(x.at(j) if arr else x))))
    return h


def h_settings(c):
    m = module()
    cal, w, n = table(c, m)
    T = m.EnergyCalibration.CURVETYPE
    cal._model_is_stale, cal._use_approximation, cal._use_GPR = False, c.choose("approximate"), c.choose("gpr")
    cal._curvetype = a = sum(c.choose(f"curve{i}") for i in range(5))
    cal.nonlinearity = c.real("nl")
    what = "curve" if c.choose("set curve") else "approx" if c.choose("set approximation") else "gpr" if c.choose("set gpr") else "nonlin"
    if what == "curve":
        byname = c.choose("by name")
        for t in range(6):
            cal._model_is_stale, cal._curvetype = False, a
            cal.set_curvetype(T[t] if byname else t)
            c.ensure("a changed curve type is used", sbool(cal._curvetype == t and (t == a or cal._model_is_stale is True)))
    elif what == "approx":
        for v in (True, False):
            old, cal._model_is_stale = cal._use_approximation, False
            cal.set_use_approximation(v)
            c.ensure("a changed setting is used", sbool(cal._use_approximation == v and (v == old or cal._model_is_stale is True)))
    elif what == "gpr":
        for v in (True, False):
            old, cal._model_is_stale = cal._use_GPR, False
            cal.set_GPR(v)
            c.ensure("a changed setting is used", sbool(cal._use_GPR == v and (v == old or cal._model_is_stale is True)))
    else:
        v, old = c.real("v"), cal.nonlinearity
        cal.set_nonlinearity(v)
        c.ensure("a changed power law is used", And(num(cal.nonlinearity) == v, Or(v == old, sbool(T[a] != "loglog"), sbool(cal._model_is_stale is True))))


def h_copy(c):
    m = module()
    cal, w, n = table(c, m)
    cal._curvetype, cal._use_approximation, cal._use_GPR = 3, True, False
    m.EnergyCalibration.__init__, real = (lambda s, *a, **k: None), m.EnergyCalibration.__init__
    try:
        d = cal.copy()
    finally:
        m.EnergyCalibration.__init__ = real
    c.ensure("a new object with its own table", sbool(d is not cal and d._names is not cal._names and all(getattr(d, k)._st is not getattr(cal, k)._st if hasattr(d._ph, "_st") else getattr(d, k) is not getattr(cal, k) for k in FIELDS)))
    i = c.int("i", lo=0)
    c.ensure("same number of points", num(d.npts) == n)
    c.assume(i < n)
    c.ensure("same points", And(*[x == y for x, y in zip(point(d, w, i), point(cal, w, i))]))
    c.ensure("same settings", And(sbool((d._curvetype, d._use_approximation, d._use_GPR) == (3, True, False)), num(d.nonlinearity) == num(cal.nonlinearity)))
    c.ensure("curve recomputed by the copy", sbool(d._model_is_stale is True))


class H5(Ghost):
    def __init__(self): self.d, self.attrs = {}, {}
    def contains(self, k): return k in self.d
    def create_group(self, k): self.d[k] = H5(); return self.d[k]
    def __setitem__(self, k, v): self.d[k] = DSet(v)
    def create_dataset(self, k, data=None, **kw): self.d[k] = DSet(data)
    def __getitem__(self, k): return self.d[k]
    def __delitem__(self, k): del self.d[k]


class DSet(Ghost):
    def __init__(self, v): self.v = v.copy() if isinstance(v, SArr) else v
    def __getitem__(self, k):
        if not (k == slice(None) or k == ()):
            raise Unsupported("partial read")
        return self.v.copy() if isinstance(self.v, SArr) else self.v


def h_persist(c):
    m = module()
    cal, w, n = table(c, m)
    cal._curvetype, cal._use_approximation, cal._use_GPR = sum(c.choose(f"curve{i}") for i in range(5)), c.choose("approximate"), c.choose("gpr")
    h = H5()
    if c.choose("saved before"):
        h.create_group("cal")
    cal.save_to_hdf5(h, "cal")
    d = m.EnergyCalibration.load_from_hdf5(h, "cal")
    i = c.int("i", lo=0)
    c.ensure("same number of points", And(num(d.npts) == n, *[num(getattr(d, k).shape[0]) == n for k in FIELDS], Names.of(w, d._names).slen() == n))
    c.assume(i < n)
    c.ensure("same points", And(*[x == y for x, y in zip(point(d, w, i), point(cal, w, i))]))
    c.ensure("same settings", And(sbool((d._curvetype, d._use_approximation, d._use_GPR) == (cal._curvetype, cal._use_approximation, cal._use_GPR)), num(d.nonlinearity) == num(cal.nonlinearity)))
    c.ensure("curve computed when used", Or(n == 0, sbool(d._model_is_stale is True)))


HARNESSES = [
    Harness("add_point", h_add, functions=[F + "add_cal_point"], qtimeout=15),
    Harness("remove_index", h_remove_idx, functions=[F + "_remove_cal_point_idx"]),
    Harness("remove_energy", h_remove_energy, functions=[F + "remove_cal_point_energy"], specs=REN),
    Harness("remove_name", h_remove_name, functions=[F + "remove_cal_point_name"]),
    Harness("remove_prefix", h_remove_prefix, functions=[F + "remove_cal_point_prefix"], specs=RPX),
    *[Harness("curve_" + k, h_curve(k), functions=[F + "_update_exactcurves"], specs={("_update_exactcurves", 0): GRIDL})
      for k in ("loglog", "linear", "linear+0", "gain", "invgain", "loggain")],
    Harness("update_converters", h_update, functions=[F + "_update_converters"], specs={("_update_converters", 0): GRIDL}),
    *[Harness("use_" + k, h_convert(k), functions=[F + k]) for k in ("ph2energy", "__call__", "energy2ph", "e2ph", "ph2dedph", "energy2dedph", "ph2uncertainty", "energy2uncertainty")],
    Harness("settings", h_settings, functions=[F + k for k in ("set_curvetype", "set_use_approximation", "set_GPR", "set_nonlinearity")]),
    Harness("copy", h_copy, functions=[F + "copy"]),
    Harness("save_load", h_persist, functions=[F + "save_to_hdf5", F + "load_from_hdf5"]),
]
