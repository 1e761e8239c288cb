import numpy as np
import scipy.linalg
import mass
from lib import *
from mass.mathstat.toeplitz import ToeplitzSolver
from mass.core.optimal_filtering import ToeplitzWhitener


def dense(T, sym):
    n = len(T) if sym else (len(T) + 1) // 2
    return np.array([[T[abs(i - j)] if sym else T[i - j + n - 1] for j in range(n)] for i in range(n)], float)


def matrix(rng, sym):
    """a well-conditioned matrix, by its values"""
    g = rng.np
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 17, 40])
    k = rng.randrange(4)
    m = n if sym else 2 * n - 1
    T = g.normal(0, 1, m)
    mid = 0 if sym else n - 1
    if k == 0 and sym:
        T = rng.choice([0.3, 0.7, -0.8]) ** np.arange(m)
        return (T * rng.choice([1, -2.0, 1e-3]), n)
    if k == 1 and n > 1:
        T[[i for i in range(m) if i != mid]] *= (g.random(m - 1) < 0.5)
    if k == 2:
        T = np.round(4 * T).astype(int)
    T[mid] = 0
    s = (2 if sym else 1) * np.abs(T).sum() + 1
    T[mid] = rng.choice([1, -1]) * (int(2 * s) if k == 2 else 1.5 * s)
    return T, n


def rhs(rng, n):
    y = rng.np.normal(0, 1, n) * rng.choice([1.0, 1e3])
    k = rng.randrange(4)
    if k == 0:
        return np.round(y * 10).astype(int)
    if k == 1:
        y = np.zeros(n)
        y[rng.randrange(n)] = 1
    return y


def close(a, b, scale, what, **kw):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, what + ": shape", got=a.shape, want=b.shape)
    check(np.all(np.abs(a - b) <= 1e-9 * scale + 1e-300), what, got=a, want=b)


@trial(weight=3, min_runs=100)
def symmetric(rng):
    T, n = matrix(rng, True)
    M = dense(T, True)
    given = list(T) if rng.maybe(0.2) else T.copy()
    s = ToeplitzSolver(given) if rng.maybe() else ToeplitzSolver(given, symmetric=True)
    note(T=T)
    for _ in range(2):
        y = rhs(rng, n)
        keep = y.copy()
        x = s(list(y) if rng.maybe(0.2) else y)
        check(np.array_equal(y, keep), "the right-hand side is not changed", got=y, want=keep)
        x = np.asarray(x)
        check(x.shape == (n,), "one value per equation", got=x.shape, want=(n,))
        close(M @ x, y, np.abs(M).max() * np.abs(x).sum() + np.abs(y).max(), "T x = y")
        z = rhs(rng, n)
        close(s.mult(z), M @ z, np.abs(M).max() * np.abs(z).sum(), "product")
    if rng.maybe(0.3):
        k = rng.randint(1, 3)
        Y = np.stack([rhs(rng, n) for _ in range(k)]).T
        X = np.asarray(s(Y))
        check(X.shape == (n, k), "one column per right-hand side", got=X.shape, want=(n, k))
        close(M @ X, Y, np.abs(M).max() * np.abs(X).sum() + np.abs(Y).max(), "T X = Y")


@trial(weight=3, min_runs=100)
def general(rng):
    T, n = matrix(rng, False)
    M = dense(T, False)
    s = ToeplitzSolver(T.copy(), symmetric=False)
    note(T=T)
    for _ in range(2):
        y = rhs(rng, n)
        keep = y.copy()
        x = np.asarray(s(y))
        check(np.array_equal(y, keep), "the right-hand side is not changed", got=y, want=keep)
        check(x.shape == (n,), "one value per equation", got=x.shape, want=(n,))
        close(M @ x, y, np.abs(M).max() * np.abs(x).sum() + np.abs(y).max(), "T x = y")


def coeffs(rng, d):
    g = rng.np
    c = g.normal(0, 1, d + 1)
    if d:
        c[1:] *= rng.choice([0.3, 0.7]) / (np.abs(c[1:]).sum() + 1e-9)
        if rng.maybe(0.3):
            c[rng.randint(1, d)] = 0
    c[0] = 1
    return c * rng.choice([1.0, 2.5, -0.5])


@trial(weight=4, min_runs=200)
def whiten(rng):
    p, q, N = rng.randint(0, 5), rng.randint(0, 5), rng.choice([1, 2, 3, 4, 5, 6, 7, 12, 40])
    if rng.maybe(0.3):
        p = 0
    if rng.maybe(0.3):
        q = 0
    theta, phi = coeffs(rng, q), coeffs(rng, p)
    w = ToeplitzWhitener(theta, phi)
    tri = lambda a: np.array([[a[i - j] if 0 <= i - j < len(a) else 0.0 for j in range(N)] for i in range(N)])
    MA, AR = tri(theta), tri(phi)
    W = np.linalg.solve(MA, AR)
    Wi = np.linalg.solve(AR, MA)
    note(theta=theta, phi=phi, N=N)
    big = 1 + np.abs(W).sum() + np.abs(Wi).sum()
    close(w.W(N), W, big, "full matrix")
    if rng.maybe(0.25):
        v = rng.np.normal(0, 3, (N, rng.randint(1, 3)))
    else:
        v = rng.np.normal(0, 3, N)
    if rng.maybe(0.3):
        v = np.round(v * 3).astype(int)
    keep = v.copy()
    note(v=v)
    size = big * (1 + np.abs(v).sum())
    for nm, f, M in (("whiten", w.whiten, W), ("call", w, W), ("solveW", w.solveW, Wi), ("applyWT", w.applyWT, W.T), ("solveWT", w.solveWT, Wi.T)):
        r = f(v)
        close(r, M @ v, size, nm)
        check(np.array_equal(v, keep), nm + ": the input is not changed", got=v, want=keep)
    close(w.solveW(w.whiten(v)), v, size * big, "unwhitened after whitening")
    close(w.whiten(w.solveW(v)), v, size * big, "whitened after unwhitening")
    close(w.solveWT(w.applyWT(v)), v, size * big, "transposed, there and back")
    close(w.applyWT(w.solveWT(v)), v, size * big, "transposed, back and there")


@trial(weight=1, min_runs=5)
def shapes(rng):
    w = ToeplitzWhitener(coeffs(rng, rng.randint(0, 2)), coeffs(rng, rng.randint(0, 2)))
    v = rng.np.normal(0, 1, (4, 2, 2))
    for f in (w.whiten, w.solveW, w.applyWT, w.solveWT):
        check(raises(ValueError, f, v), "three dimensions are refused")
    T, n = matrix(rng, True)
    s = ToeplitzSolver(T)
    check(raises((AssertionError, ValueError), s, np.zeros(n + 1)), "a right-hand side of another length is refused")
