import numpy as np
from lib import *
from mass.mathstat import robust, entropy
from mass.off.util import median_absolute_deviation


def vec(rng, n):
    kind = rng.randrange(6)
    if kind == 0:
        return rng.np.normal(size=n)
    if kind == 1:
        return rng.np.integers(-3, 4, n).astype(float)
    if kind == 2:
        return np.full(n, rng.uniform(-5, 5))
    if kind == 3:
        return rng.np.exponential(size=n) * 10.0 ** rng.randint(-6, 6)
    if kind == 4:
        return rng.choice([1e6, 1e8]) + rng.np.normal(size=n)
    return np.cumsum(rng.np.integers(0, 2, n)).astype(float)


@trial(weight=2, min_runs=400)
def high_median(rng):
    n = rng.size(14, empty=False)
    x = vec(rng, n)
    w = rng.choice([None, rng.np.integers(0, 5, n).astype(float), rng.np.integers(1, 4, n).astype(float), np.ones(n, int), np.eye(n)[rng.randrange(n)]])
    if w is not None and w.sum() == 0:
        raise Skip()
    note(x=x.tolist(), w=None if w is None else w.tolist())
    x0, w0 = x.copy(), None if w is None else w.copy()
    arg = x if rng.maybe(0.7) else x.tolist()
    got, i = robust.high_median(arg, w, return_index=True)
    ww = np.ones(n) if w is None else w
    want = min(v for v in x if ww[x <= v].sum() * 2 > ww.sum())
    check(got == want and x[i] == got, "high median is the smallest value whose cumulative weight exceeds half", got=got, want=want, index=i)
    check(robust.high_median(arg, w) == got, "the same value without the index")
    same(x, x0, "data unchanged")
    if w is not None:
        same(w, w0, "weights unchanged")


@trial(weight=1, min_runs=200)
def mad_shorth(rng):
    n = rng.size(14, empty=False)
    x = vec(rng, n)
    note(x=x.tolist())
    x0 = x.copy()
    arg = x if rng.maybe(0.7) else x.tolist()
    mad = np.median(np.abs(x - np.median(x)))
    same(robust.median_abs_dev(arg), mad, "median absolute deviation")
    same(robust.median_abs_dev(arg, normalize=True), mad / 0.674480, "normalised median absolute deviation", rtol=1e-9)
    a, s, m = median_absolute_deviation(x)
    check(a == mad and m == np.median(x) and abs(s * 0.67449 - mad) <= 1e-9 * abs(mad), "mad, sigma, median")
    h = n // 2 + 1
    xs = np.sort(x)
    rg = [xs[i + h - 1] - xs[i] for i in range(n - h + 1)]
    same(robust.shorth_range(arg), min(rg), "shortest half range")
    r, mean, ctr = robust.shorth_range(arg, location=True)
    ok = [i for i in range(len(rg)) if rg[i] == min(rg)]
    check(any(ctr == 0.5 * (xs[i] + xs[i + h - 1]) and np.isclose(mean, xs[i:i + h].mean(), rtol=1e-12, atol=1e-300) for i in ok), "location of the shortest half", mean=mean, centre=ctr)
    if n > 1:
        nr = robust.shorth_range(arg, normalize=True)
        k = (n + 1.0) / n if n % 2 == 0 else (n + 1.0) / (n - 1.0)
        same(nr, min(rg) / (2 * .674480) * k, "normalised shorth", rtol=1e-9)
    same(x, x0, "data unchanged")
    p = rng.np.permutation(n)
    same(robust.shorth_range(x[p]), min(rg), "order of the data does not matter")
    y = x.copy()
    robust.shorth_range(y, sort_inplace=True)
    same(y, xs, "in-place sort")
    check(raises(ValueError, robust.shorth_range, x.tolist(), sort_inplace=True), "a list cannot be sorted in place")


FACT = [0, 0, 0.399, 0.994, 0.512, 0.844, 0.611, 0.857, 0.669, 0.872]


def qfactor(n):
    if n <= 9:
        return 2.2219 * FACT[n]
    return 2.2219 * (n / (n + 1.4) if n % 2 else n / (n + 3.8))


@trial(weight=2.5, min_runs=300)
def qscale(rng):
    n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 24, 40, 61])
    x = vec(rng, n)
    note(x=x.tolist())
    x0 = x.copy()
    arg = x if rng.maybe(0.7) else x.tolist()
    got = robust.Qscale(arg)
    same(x, x0, "data unchanged")
    xs = np.sort(x)
    d = np.sort([xs[j] - xs[i] for i in range(n) for j in range(i + 1, n)])
    h = n // 2 + 1
    want = d[h * (h - 1) // 2 - 1]
    same(got, want * qfactor(n), "Qscale is the defining order statistic of the pair distances", rtol=1e-12, atol=0)
    same(robust.Qscale(x[rng.np.permutation(n)]), got, "order of the data does not matter", rtol=1e-12)
    same(robust.Qscale(x, sort_inplace=True), got, "in place", rtol=1e-12)
    same(x, xs, "sorted in place")


@trial(weight=2, min_runs=300)
def merge(rng):
    a, b = np.sort(vec(rng, rng.size(10))), np.sort(vec(rng, rng.size(10)))
    if len(a) and len(b) and rng.maybe(0.4):
        b = np.sort(np.concatenate([b, rng.np.choice(a, rng.randint(1, 4))]))
    if rng.maybe(0.2):
        a = a - 1e9
    note(x1=a.tolist(), x2=b.tolist())
    a0, b0 = a.copy(), b.copy()
    if len(a) + len(b) == 0:
        check(raises(ValueError, entropy._merge_orderedlists, a, b), "two empty lists are refused")
        return
    x, f = entropy._merge_orderedlists(*((a, b) if rng.maybe(0.7) else (a.tolist(), b.tolist())))
    same(x, np.sort(np.concatenate([a, b])), "sorted multiset union")
    same(x[f], a, "flagged values are the first list")
    same(x[~f], b, "the others are the second list")
    check(f.dtype == bool, "flags are booleans")
    same(a, a0, "first list unchanged")
    same(b, b0, "second list unchanged")
