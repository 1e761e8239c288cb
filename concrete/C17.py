import warnings
import numpy as np
import scipy.linalg
import mass
from lib import *
from mass.core.optimal_filtering import FilterMaker, ToeplitzWhitener, band_limit, bracketR

LN = 8 * np.log(2)


def pulse(rng, ns, npre, sign=1):
    """average pulse (any baseline, exact pretrigger constant or not), with its derivative"""
    g = rng.np
    t = np.arange(ns - npre) + 1.0
    r, f = rng.choice([1.0, 3.0]), rng.choice([6.0, 30.0, 200.0])
    p = np.zeros(ns)
    p[npre:] = np.exp(-t / f) - np.exp(-t / r) * rng.choice([0.5, 0.99])
    p *= sign * rng.choice([1.0, 700.0, 5e3]) / p.max()
    d = np.zeros(ns)
    d[1:] = np.diff(p)
    return p, d


def autocorr(rng, n):
    k = rng.randrange(3)
    if k == 0:
        a = np.zeros(n)
        a[0] = 1
    elif k == 1:
        a = rng.choice([0.5, 0.9]) ** np.arange(n)
    else:
        a = 0.3 * 0.95 ** np.arange(n)
        a[0] += 0.7
    return a * rng.choice([1.0, 25.0])


def height5(f, s):
    """peak of the least-squares parabola through five lags"""
    conv = [np.dot(f, s[i:i + len(f)]) for i in range(5)]
    x = np.arange(-2, 3)
    c, b, a = np.linalg.lstsq(np.stack([np.ones(5), x, x * x]).T, conv, rcond=None)[0]
    return c - 0.25 * b * b / a


def near(a, b, tol, what):
    check(np.all(np.abs(np.asarray(a) - b) <= tol), what, got=a, want=b)


def setup(rng):
    ns = rng.choice([20, 31, 64, 101, 200])
    npre = rng.randint(8, ns // 2)
    p, d = pulse(rng, ns, npre)
    base = rng.choice([0.0, 1000.0, -3.5])
    noise = autocorr(rng, ns + rng.choice([0, 5]))
    note(ns=ns, npre=npre, base=base, noise=noise[:3])
    cuts = (rng.randint(0, 5), rng.randint(0, ns // 6 if rng.maybe(0.7) else ns - npre - 5)) if rng.maybe() else (0, 0)
    smooth = rng.choice([{}, {}, {"fmax": 0.3}, {"f_3db": 0.1}, {"fmax": 0.35, "f_3db": 0.2}])
    dt = rng.choice([1.0, 1e-5])
    smooth = {k: v / dt for k, v in smooth.items()}
    note(cuts=cuts, smooth=smooth)
    return ns, npre, p, d, base, noise, cuts, smooth, dt


def standard(p, npre, cut):
    """the average pulse as filtered: baseline taken out, unit height, only the kept samples"""
    s = p / p.max()
    s[:npre] = 0
    return s[cut[0]:len(s) - cut[1]]


def noise_matrix(a, n): return scipy.linalg.toeplitz(a[:n])


@trial(weight=4, min_runs=60)
def five(rng):
    ns, npre, p, d, base, noise, cut, smooth, dt = setup(rng)
    kw = dict(noise_autocorr=noise, sample_time_sec=dt)
    wh = None
    if rng.maybe(0.25):
        wh = ToeplitzWhitener(np.array([1.0, 0.4]), np.array([1.0, -0.5]))
        kw = dict(whitener=wh, sample_time_sec=dt)
        note(whitener=True)
    if rng.maybe():
        kw["peak"] = float(p.max()) * rng.choice([1.0, 1.01])
    m = FilterMaker(p + base, npre, **kw)
    f = m.compute_5lag(cut_pre=cut[0], cut_post=cut[1], **smooth)
    v = f.values
    check(len(v) == ns - 4, "as long as the record less four", got=len(v), want=ns - 4)
    s = standard(p, npre, cut)
    inner = v[cut[0]:len(v) - cut[1]]
    check(np.all(v[:cut[0]] == 0) and np.all(v[len(v) - cut[1]:] == 0), "no weight where excluded", got=v)
    tot = np.abs(inner).sum()
    near(height5(inner, s), 1.0, 1e-6 * (1 + tot), "unit response to the average pulse")
    near(v.sum(), 0.0, 1e-9 * tot, "insensitive to a constant")
    if wh is None:
        R = noise_matrix(noise, len(inner))
    else:
        Wi = np.linalg.inv(wh.W(len(inner)))
        R = Wi @ Wi.T
    var = inner @ R @ inner
    near(f.variance, var, 1e-8 * tot**2 * np.abs(R).max(), "variance")
    near(f.predicted_v_over_dv, f.nominal_peak / np.sqrt(LN * var), 1e-6 * abs(f.predicted_v_over_dv), "resolving power")
    near(f.nominal_peak, kw.get("peak", p[cut[0]:ns - cut[1]].max()), 1e-9 * (p.max() + abs(base)), "nominal peak")
    if not smooth:
        # no other filter of unit response ignoring constants in this class does better: optimal up to scale
        c = s[2:-2]
        A = np.linalg.solve(R, np.stack([c, np.ones(len(c))]).T)
        best = A[:, 1].sum() * A[:, 0] - A[:, 0].sum() * A[:, 1]
        k = np.dot(best, inner) / np.dot(best, best)
        near(inner, k * best, 1e-6 * tot, "optimal weights")


@trial(weight=4, min_runs=60)
def ats(rng):
    ns, npre, p, d, base, noise, cut, smooth, dt = setup(rng)
    smooth = {} if rng.maybe(0.6) else smooth
    kw = dict(noise_autocorr=noise, sample_time_sec=dt)
    wh = None
    if rng.maybe(0.4):
        wh = ToeplitzWhitener(np.array([1.0, 0.4]), np.array([1.0, -0.5]))
        kw["whitener"] = wh
        if rng.maybe():
            del kw["noise_autocorr"]
        note(whitener=True)
    if rng.maybe():
        kw["peak"] = float(p.max())
    m = FilterMaker(p + base, npre, dt_model=d, **kw)
    f = m.compute_ats(cut_pre=cut[0], cut_post=cut[1], **smooth)
    s = standard(p, npre, cut)
    e = d[cut[0]:ns - cut[1]] / p.max()
    F = [f.values, f.dt_values, f.const_values]
    inner = [x[cut[0]:ns - cut[1]] for x in F]
    for x in F:
        check(len(x) == ns, "as long as the record", got=len(x), want=ns)
        check(np.all(x[:cut[0]] == 0) and np.all(x[ns - cut[1]:] == 0), "no weight where excluded", got=x)
    size = [np.abs(x).sum() for x in inner]
    if not smooth:
        for i, nm in enumerate(("pulse", "derivative", "constant")):
            for j, (v, nv) in enumerate(((s, "the average pulse"), (e, "the derivative"), (np.ones(len(s)), "a constant"))):
                near(np.dot(inner[i], v), float(i == j), 1e-6 * (1 + size[i]), f"response of the {nm} filter to {nv}")
    else:
        for i in (0, 1):
            near(inner[i].sum(), 0.0, 1e-7 * (1 + size[i]), "insensitive to a constant")
    if "noise_autocorr" in kw:
        R = noise_matrix(noise, ns)
    else:
        Wi = np.linalg.inv(wh.W(ns))
        R = Wi @ Wi.T
    var = f.values @ R @ f.values
    near(f.variance, var, 1e-8 * size[0]**2 * np.abs(R).max(), "variance")
    near(f.predicted_v_over_dv, f.nominal_peak / np.sqrt(LN * var), 1e-6 * abs(f.predicted_v_over_dv), "resolving power")


@trial(weight=2, min_runs=20)
def ats_lowpass(rng):
    """arrival-time-safe filters with a low-pass: the same filters, low-passed"""
    ns, npre, p, d, base, noise, cut, smooth, dt = setup(rng)
    m = FilterMaker(p + base, npre, noise_autocorr=noise, dt_model=d, sample_time_sec=dt)
    f, plain = m.compute_ats(f_3db=0.1 / dt), m.compute_ats()
    for a, b, nm in ((f.values, plain.values, "pulse"), (f.dt_values, plain.dt_values, "derivative"), (f.const_values, plain.const_values, "constant")):
        ft = np.fft.rfft(b) / (1 + (np.arange(ns // 2 + 1) / (ns * dt) / (0.1 / dt))**2)
        near(a, np.fft.irfft(ft, n=ns), 1e-9 * np.abs(b).sum(), f"the smoothed {nm} filter is the filter, low-passed")


@trial(weight=1, min_runs=4)
def ats_smoothed(rng):
    """arrival-time-safe filters with a low-pass: unit response (known finding)"""
    ns, npre, p, d, base, noise, cut, smooth, dt = setup(rng)
    f = FilterMaker(p + base, npre, noise_autocorr=noise, dt_model=d, sample_time_sec=dt).compute_ats(f_3db=0.1 / dt)
    s = standard(p, npre, (0, 0))
    near(np.dot(f.values, s), 1.0, 1e-6 * (1 + np.abs(f.values).sum()), "response of the smoothed pulse filter to the average pulse")


@trial(weight=2, min_runs=40)
def fourier(rng):
    ns = rng.choice([20, 32, 64, 100, 200])
    npre = rng.randint(8, ns // 2)
    p, d = pulse(rng, ns, npre)
    base = rng.choice([0.0, 1000.0])
    dt = rng.choice([1.0, 1e-5])
    noise = autocorr(rng, ns)
    per = noise[:ns // 2 + 1]
    psd = np.abs(np.fft.rfft(np.hstack([per, per[1:-1][::-1]]))) * 2 * dt + 1e-9
    smooth = rng.choice([{}, {}, {"fmax": 0.3 / dt}, {"f_3db": 0.1 / dt}])
    kw = dict(noise_psd=psd, sample_time_sec=dt)
    both = rng.maybe()
    if both:
        kw["noise_autocorr"] = noise
    if rng.maybe():
        kw["peak"] = float(p.max())
    note(ns=ns, npre=npre, both=both, smooth=smooth, peak=kw.get("peak"))
    f = FilterMaker(p + base, npre, **kw).compute_fourier(**smooth)
    v = f.values
    s = standard(p, npre, (0, 0))
    check(len(v) == ns - 4, "as long as the record less four", got=len(v), want=ns - 4)
    tot = np.abs(v).sum()
    near(height5(v, s), 1.0, 1e-6 * (1 + tot), "unit response to the average pulse")
    near(v.sum(), 0.0, 1e-9 * tot, "insensitive to a constant")
    if both:
        R = noise_matrix(noise, len(v))
        near(f.variance, v @ R @ v, 1e-8 * tot**2 * np.abs(R).max(), "variance")


@trial(weight=1, min_runs=20)
def negative(rng):
    """negative-going pulses: unit response all the same"""
    ns = rng.choice([31, 64, 100])
    npre = rng.randint(8, ns // 2)
    p, d = pulse(rng, ns, npre, -1)
    note(ns=ns, npre=npre)
    p = p + rng.np.normal(0, 1e-4, ns) * np.abs(p).max()
    base = rng.choice([0.0, 1000.0])
    pre = p[:npre - 1].mean()
    f = FilterMaker(p + base, npre, noise_autocorr=autocorr(rng, ns), sample_time_sec=1.0, dt_model=d)
    h = pre - p.min()
    s = (p - pre) / h
    s[:npre] = 0
    a, b = f.compute_5lag(), f.compute_ats()
    ta, tb = np.abs(a.values).sum(), np.abs(b.values).sum()
    near(abs(height5(a.values, s)), 1.0, 1e-6 * (1 + ta), "5-lag: own height")
    near(abs(np.dot(b.values, s)), 1.0, 1e-6 * (1 + tb), "ats: own height")
    near(np.abs(a.nominal_peak), h, 1e-8 * (h + base), "nominal peak")


@trial(weight=1, min_runs=30)
def quadratic_form(rng):
    n = rng.choice([1, 2, 5, 30])
    q = rng.np.normal(0, 1, n)
    a = autocorr(rng, n + rng.choice([0, 3]))
    if rng.maybe():
        a = rng.np.normal(0, 1, len(a))
    note(n=n, noise=a[:5])
    near(bracketR(q, a), q @ noise_matrix(a, n) @ q, 1e-9 * np.abs(q).sum()**2 * np.abs(a).max(), "quadratic form")
    check(raises(ValueError, bracketR, np.ones(n + 4), a), "noise too short is refused")


@trial(weight=1, min_runs=10)
def refused(rng):
    ns, npre = 40, 15
    p, d = pulse(rng, ns, npre)
    a = autocorr(rng, ns)
    m = FilterMaker(p, npre, noise_autocorr=a, dt_model=d, sample_time_sec=1.0)
    for f in (m.compute_5lag, m.compute_ats):
        check(raises(ValueError, lambda: f(cut_pre=-1)), "negative cut is refused")
        check(raises(ValueError, lambda: f(cut_post=-1)), "negative cut is refused")
        check(raises(ValueError, lambda: f(cut_pre=5, cut_post=ns - 5)), "nothing left is refused")
    m = FilterMaker(p, npre, dt_model=d, sample_time_sec=1.0)
    check(raises(ValueError, m.compute_5lag), "no noise is refused")
    check(raises(ValueError, m.compute_ats), "no noise is refused")
    check(raises(ValueError, m.compute_fourier), "no noise spectrum is refused")
    m = FilterMaker(p, npre, noise_autocorr=a, sample_time_sec=1.0)
    check(raises(ValueError, m.compute_ats), "no derivative is refused")
