import numpy as np
from lib import *
from mass.mathstat.interpolate import CubicSpline, CubicSplineFunction, LinterpCubicSpline

TOL = 1e-8


def knots(rng, n=None):
    n = n or (2 if rng.maybe(0.15) else 3 if rng.maybe(0.15) else rng.randint(4, 14))
    steps = [rng.choice([1, 1, 2, 3, 0.5, 7]) * rng.choice([1.0, 1.0, 1.25]) for _ in range(n)]
    scale = rng.choice([1.0, 1.0, 100.0, 1e-2])
    x = (np.cumsum(steps) + rng.choice([0, -20, 1000])) * scale
    y = np.array([rng.uniform(-5, 5) for _ in range(n)])
    if rng.maybe(0.2):
        x, y = np.cumsum([int(4 * s) for s in steps]) + 100, np.round(y).astype(int)
        scale = 1.0
    kw = {}
    if rng.maybe(0.4):
        kw["yprime1"] = rng.choice([0, 0.0, rng.uniform(-3, 3)]) / scale
    if rng.maybe(0.4):
        kw["yprimeN"] = rng.choice([0, 0.0, rng.uniform(-3, 3)]) / scale
    return x, y, kw


def reference(x, y, kw):
    """the spline of sorted knots from the tridiagonal equations, solved directly"""
    n = len(x)
    d = np.diff(x).astype(float)
    ch = np.diff(y) / d
    A, b = np.zeros((n, n)), np.zeros(n)
    for i in range(1, n - 1):
        A[i, i - 1:i + 2] = d[i - 1], 2 * (d[i - 1] + d[i]), d[i]
        b[i] = 6 * (ch[i] - ch[i - 1])
    if kw.get("yprime1") is None:
        A[0, 0] = 1
    else:
        A[0, :2] = d[0] / 3, d[0] / 6
        b[0] = ch[0] - kw["yprime1"]
    if kw.get("yprimeN") is None:
        A[-1, -1] = 1
    else:
        A[-1, -2:] = d[-1] / 6, d[-1] / 3
        b[-1] = kw["yprimeN"] - ch[-1]
    # row scaling keeps the solve well conditioned
    s = np.abs(A).max(axis=1)
    z = np.linalg.solve(A / s[:, None], b / s)

    def f(v, der=0):
        s1 = ch[0] - d[0] * (z[0] / 3 + z[1] / 6)
        sN = ch[-1] + d[-1] * (z[-2] / 6 + z[-1] / 3)
        if v <= x[0] or v > x[-1]:
            x0, y0, sl = (x[0], y[0], s1) if v <= x[0] else (x[-1], y[-1], sN)
            return [y0 + sl * (v - x0), sl, 0, 0, 0][der]
        i = int(np.searchsorted(x, v)) - 1
        a, t = (x[i + 1] - v) / d[i], (v - x[i]) / d[i]
        return [a * y[i] + t * y[i + 1] + ((a**3 - a) * z[i] + (t**3 - t) * z[i + 1]) * d[i]**2 / 6,
                ch[i] + ((1 / 3 - a * a) * z[i] + (t * t - 1 / 3) * z[i + 1]) * d[i] / 2,
                a * z[i] + t * z[i + 1], (z[i + 1] - z[i]) / d[i], 0][der]
    return f


def close(got, want, scale, msg, **k):
    got, want = np.asarray(got, float), np.asarray(want, float)
    check(got.shape == want.shape, msg + ": shape", got=got.shape, want=want.shape)
    check(np.all(np.abs(got - want) <= TOL * scale), msg, got=got, want=want, **k)


@trial(weight=2, min_runs=120)
def values(rng):
    x, y, kw = knots(rng)
    n = len(x)
    note(x=x.tolist(), y=y.tolist(), **kw)
    cls = rng.choice([CubicSpline, CubicSplineFunction])
    perm = rng.sample(range(n), n) if rng.maybe(0.6) else list(range(n))
    xin, yin = x[perm], y[perm]
    if rng.maybe(0.3):
        xin, yin = list(xin), list(yin)
    s = cls(xin, yin, **kw)
    f = reference(x, y, kw)
    d = np.diff(x)
    width = x[-1] - x[0]
    ysc = np.abs(y).max() + 1 + max([abs(v) for v in kw.values()], default=0) * width
    pts = [x[i] + t * d[i] for i in range(n - 1) for t in (0.25, 0.5, 0.9)]
    out = [x[0] - 0.3 * d[0], x[0] - 2.5 * width, x[-1] + 0.1 * d[-1], x[-1] + 3.0 * width]
    rng.shuffle(pts)
    pts = np.array(pts[:8] + out, float)
    if rng.maybe(0.5):
        pts = np.array(rng.sample(list(pts), len(pts)))
    near = 100 * ysc * (width / d.min())
    for der in range(5):
        if der == 0:
            close(s(x.astype(float)), y, near, "passes through its knots")
        want = np.array([f(v, der) for v in pts])
        sc = near / d.min()**der
        got = s(pts, der=der) if der or rng.maybe() else s(pts)
        close(got, want, sc, f"derivative {der}", points=pts)
        i = rng.randrange(len(pts))
        g1 = s(float(pts[i]), der=der)
        check(np.ndim(g1) == 0, "scalar in, scalar out")
        close(g1, want[i], sc, f"scalar, derivative {der}", point=pts[i])
        one = s(np.array([pts[i]]), der=der)
        close(one, want[i:i + 1], sc, f"one point, derivative {der}")
    # interior knots: the same value, slope and curvature from both sides
    eps = 1e-7
    for i in range(1, n - 1):
        for der in range(3):
            l, r = s(float(x[i] - eps * d[i - 1]), der=der), s(float(x[i] + eps * d[i]), der=der)
            check(abs(l - r) <= 1e-4 * near / d.min()**der, f"continuous at knots, derivative {der}", knot=i, left=l, right=r)
    check(len(s(np.array([]))) == 0, "no points")


@trial(weight=1, min_runs=80)
def function_objects(rng):
    x, y, kw = knots(rng)
    note(x=x.tolist(), y=y.tolist(), **kw)
    s = CubicSplineFunction(x, y, **kw)
    f = reference(x, y, kw)
    d = np.diff(x)
    width = x[-1] - x[0]
    ysc = np.abs(y).max() + 1 + max([abs(v) for v in kw.values()], default=0) * width
    near = 100 * ysc * (width / d.min())
    pts = np.array([x[0] - width, x[0] + 0.3 * d[0], x[-1] - 0.4 * d[-1], x[-1] + width], float)
    k1, k2 = rng.randint(0, 3), rng.randint(0, 3)
    g = s.derivative(k1) if k1 != 1 or rng.maybe() else s.derivative()
    if rng.maybe(0.6) and k1 + k2 <= 3:
        g, tot = g.derivative(k2), k1 + k2
    else:
        tot = k1
    e = rng.choice([0, 0, 1, 2])
    t2 = min(tot + e, 4)
    want = np.array([f(v, t2) for v in pts])
    got = g(pts, der=e)
    close(got, want, near / d.min()**t2, f"derivative object {tot}, evaluated with der={e}")
    h = s.derivative(4)
    close(h(pts), np.zeros(4), 1, "fourth derivative")


@trial(weight=1, min_runs=60)
def combination(rng):
    x, y, kw = knots(rng)
    y2 = np.array([rng.uniform(-5, 5) for _ in x])
    kw2 = {k: rng.uniform(-1, 1) / (x[-1] - x[0]) for k in ("yprime1", "yprimeN") if rng.maybe(0.4)}
    t = rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 1), -0.3, 1.7])
    note(x=x.tolist(), y=y.tolist(), y2=y2.tolist(), frac=t)
    a, b = CubicSpline(x, y, **kw), CubicSpline(x, y2, **kw2)
    s = LinterpCubicSpline(a, b, t)
    w = x[-1] - x[0]
    pts = np.array([x[0] - w] + [rng.uniform(x[0], x[-1]) for _ in range(6)] + [x[-1] + 2 * w])
    for der in range(4):
        va, vb = a(pts, der=der), b(pts, der=der)
        sc = np.abs(va).max() + np.abs(vb).max() + 1e-300
        close(s(pts, der=der), t * va + (1 - t) * vb, 10 * sc + 1e-6, f"linear combination, derivative {der}")
