import math
import numpy as np
from lib import *
from mass.mathstat.derivative import *
from mass.mathstat.derivative import Function
from mass.mathstat.interpolate import CubicSplineFunction, SmoothingSplineFunction, SmoothingSpline, GPRSplineFunction, GPRSpline

K = 3          # derivatives 0..K
FACT = [math.factorial(i) for i in range(K + 1)]


class OutOfDomain(Exception):
    pass


class Jet:
    """truncated Taylor series at a point: an independent way to take derivatives"""
    def __init__(self, c, mag=0): self.c, self.mag = list(c), max([mag] + [abs(v) for v in c])
    def __add__(self, o): return Jet([a + b for a, b in zip(self.c, o.c)], max(self.mag, o.mag))
    def scale(self, k): return Jet([k * a for a in self.c], self.mag)

    def __mul__(self, o):
        return Jet([sum(self.c[i] * o.c[k - i] for i in range(k + 1)) for k in range(K + 1)],
                   max(self.mag, o.mag, max(sum(abs(self.c[i] * o.c[k - i]) for i in range(k + 1)) for k in range(K + 1))))

    def through(self, ders):
        """f(self) given the derivatives of f at the value"""
        t = Jet([0] + self.c[1:], self.mag)
        out, p = Jet([ders[0]] + [0] * K, self.mag), Jet([1] + [0] * K)
        for k in range(1, K + 1):
            p = p * t
            out = out + p.scale(ders[k] / FACT[k])
            out.mag = max(out.mag, p.mag, max(abs(ders[k]) * abs(v) for v in p.c))
        return Jet(out.c, max(out.mag, max(abs(d) for d in ders)))


def power_ders(v, n):
    if float(n) == int(n):
        n = int(n)
        if n < 0 and abs(v) < 0.05:
            raise OutOfDomain
    elif v < 0.05:
        raise OutOfDomain
    out, co = [], 1.0
    for k in range(K + 1):
        e = n - k
        out.append(0.0 if co == 0 else co * float(v) ** e)
        co *= e
    return out


class E:
    """expression: the library object and the reference evaluation"""
    def __init__(self, f, ref, txt): self.f, self.ref, self.txt = f, ref, txt


def checked(f):
    def g(x):
        j = f(x)
        if not all(abs(v) < 1e5 for v in j.c) or j.mag > 1e7:
            raise OutOfDomain
        return j
    return g


X = Jet([0, 1] + [0] * (K - 1))


def var(x): return Jet([x, 1] + [0] * (K - 1))


KX = np.array([-6.0, -3.1, -1.2, 0.3, 1.7, 2.9, 4.4, 7.0])


def leaf(rng):
    k = rng.randrange(7)
    if k == 0:
        v = rng.choice([0, 1, -1, 2, 2.5, -0.5])
        return E(ConstantFunction(v), lambda j: Jet([v] + [0] * K), f"{v}")
    if k == 1:
        return E(Identity(), lambda j: j, "x")
    if k in (2, 3):
        n = rng.choice([-2, -1, 0, 1, 2, 3, 0.5, 1.5, -0.5, 2.0, 1 / 3, 4])
        return E(PowerFunction(n), lambda j: j.through(power_ders(j.c[0], n)), f"P{n:.3g}")
    if k == 4:
        return E(ExponentialFunction(), lambda j: j.through([math.exp(min(j.c[0], 60))] * (K + 1)) if j.c[0] < 12 else oops(), "exp")
    if k == 5:
        def lg(j):
            if j.c[0] < 1e-3:
                raise OutOfDomain
            return j.through([math.log(j.c[0])] + power_ders(max(j.c[0], 0.05), -1)[:K] if j.c[0] >= 0.05 else oops())
        return E(LogFunction(), lg, "log")
    y = np.array([rng.uniform(-2, 2) for _ in KX])
    s = CubicSplineFunction(KX, y)

    def sp(j):
        v = j.c[0]
        if np.min(np.abs(KX - v)) < 1e-3 or abs(v) > 50:
            raise OutOfDomain
        return j.through([float(s(v, der=k)) for k in range(K + 1)])
    return E(s, sp, "spline")


def oops():
    raise OutOfDomain


def grow(rng, depth):
    if depth == 0 or rng.maybe(0.12):
        return leaf(rng)
    op = rng.randrange(10)
    a = grow(rng, depth - 1)
    if op == 0:
        return E(-a.f, lambda j: a.ref(j).scale(-1), f"-({a.txt})")
    if op == 1:
        y = rng.choice([0, 1, 2, 3, -1, 0.5, 1.5, -2])
        return E(a.f ** y, lambda j: (lambda t: t.through(power_ders(t.c[0], y)))(a.ref(j)), f"({a.txt})**{y}")
    if op in (2, 3):
        v = rng.choice([0, 1, -1, 2, 3, 0.5, -1.5])
        cst = Jet([v] + [0] * K)
        which = rng.randrange(7)
        if which == 0:
            return E(v + a.f, lambda j: cst + a.ref(j), f"{v}+({a.txt})")
        if which == 1:
            return E(a.f + v, lambda j: cst + a.ref(j), f"({a.txt})+{v}")
        if which == 2:
            return E(v - a.f, lambda j: cst + a.ref(j).scale(-1), f"{v}-({a.txt})")
        if which == 3:
            return E(a.f - v, lambda j: a.ref(j) + cst.scale(-1), f"({a.txt})-{v}")
        if which == 4:
            return E(v * a.f, lambda j: a.ref(j).scale(v), f"{v}*({a.txt})")
        if which == 5:
            return E(a.f * v, lambda j: a.ref(j).scale(v), f"({a.txt})*{v}")
        if v == 0:
            v = 4.0
        if rng.maybe():
            return E(a.f / v, lambda j: a.ref(j).scale(1 / v), f"({a.txt})/{v}")
        return E(v / a.f, lambda j: (lambda t: t.through(power_ders(t.c[0], -1)).scale(v))(a.ref(j)), f"{v}/({a.txt})")
    b = grow(rng, depth - 1)
    if op == 4:
        return E(a.f + b.f, lambda j: a.ref(j) + b.ref(j), f"({a.txt})+({b.txt})")
    if op == 5:
        return E(a.f - b.f, lambda j: a.ref(j) + b.ref(j).scale(-1), f"({a.txt})-({b.txt})")
    if op == 6:
        return E(a.f * b.f, lambda j: a.ref(j) * b.ref(j), f"({a.txt})*({b.txt})")
    if op == 7:
        return E(a.f / b.f, lambda j: a.ref(j) * (lambda t: t.through(power_ders(t.c[0], -1)))(b.ref(j)), f"({a.txt})/({b.txt})")
    if rng.maybe():
        return E(a.f << b.f, lambda j: comp(a, b, j), f"({a.txt})<<({b.txt})")
    return E(b.f >> a.f, lambda j: comp(a, b, j), f"({b.txt})>>({a.txt})")


def comp(a, b, j):
    return checked(a.ref)(checked(b.ref)(j))


def near(got, want, mag, msg, **k):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    check(got.shape == want.shape, msg + ": shape", got=got.shape, want=want.shape)
    check(np.all(np.abs(got - want) <= 1e-9 * (1 + mag)), msg, got=got.tolist(), want=want.tolist(), **k)


def safe_build(rng, depth):
    try:
        return grow(rng, depth)
    except ZeroDivisionError:
        raise Skip()


@trial(weight=3, min_runs=400)
def expressions(rng):
    with np.errstate(all="ignore"):
        e = safe_build(rng, rng.choice([1, 1, 2, 2, 2, 3]))
        pts, refs = [], []
        for x in [rng.choice([-3.0, -1.5, -0.5, 0.7, 1.3, 2.0, 3.3]) + rng.choice([0, rng.uniform(-0.4, 0.4)]) for _ in range(6)] + [0.0]:
            try:
                r = checked(e.ref)(var(x))
            except (OutOfDomain, OverflowError, ZeroDivisionError):
                continue
            if not all(math.isfinite(v) for v in r.c):
                continue
            pts.append(x)
            refs.append(r)
        note(expression=e.txt, points=pts)
        if not pts:
            raise Skip()
        mag = max(r.mag for r in refs) * 100
        xs = np.array(pts)
        for k in range(K + 1):
            want = np.array([r.c[k] * FACT[k] for r in refs])
            if k == 0:
                near(e.f(xs), want, mag, "value")
                near(e.f(pts[0]), want[0], mag, "value at a number")
                if rng.maybe(0.3):
                    near(e.f << pts[0], want[0], mag, "f << number")
                    near(pts[0] >> e.f, want[0], mag, "number >> f")
            near(e.f.derivative(k)(xs), want, mag, f"derivative object, order {k}")
            near(e.f(xs, der=k), want, mag, f"evaluated with der={k}")
            for a in range(1, k):
                near(e.f.derivative(a).derivative(k - a)(xs), want, mag, f"derivative {k - a} of derivative {a}")
                near(e.f.derivative(a)(xs, der=k - a), want, mag, f"derivative {a} evaluated with der={k - a}")


@trial(weight=0.4, min_runs=15)
def fitted(rng):
    n = rng.randint(5, 9)
    x = np.cumsum([rng.uniform(0.5, 2) for _ in range(n)]) * rng.choice([1, 100])
    y = 3 + x / x[-1] + np.array([rng.uniform(-0.3, 0.3) for _ in range(n)])
    dy = np.array([rng.uniform(0.05, 0.2) for _ in range(n)])
    kw = {}
    if rng.maybe(0.4):
        kw["maxchisq"] = rng.choice([n * 0.5, n * 0.9])
    if rng.maybe(0.3):
        kw["dx"] = dy * 0.1
    note(x=x.tolist(), y=y.tolist(), dy=dy.tolist(), **kw)
    s, plain = SmoothingSplineFunction(x, y, dy, **kw), SmoothingSpline(x, y, dy, **kw)
    pts = np.array([x[0] - 1, x[-1] + 2] + [rng.uniform(x[0], x[-1]) for _ in range(5)])
    for d in range(4):
        want = plain(pts, der=d)
        sc = np.abs(want).max() + 1e-12
        for a in range(d + 1):
            g = s.derivative(a)
            check(np.all(np.abs(g(pts, der=d - a) - want) <= 1e-6 * sc), f"smoothing spline: derivative {a} evaluated with der={d - a}", got=g(pts, der=d - a), want=want)
        check(np.all(np.abs((s << Identity()).derivative(d)(pts) - want) <= 1e-6 * sc), "composition with the identity")
    check(np.all(s.derivative(4)(pts) == 0), "fourth derivative")
