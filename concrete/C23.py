import os
import numpy as np
import mass
from lib import *
from mktes import tes, quiet
from mkdata import write_ljh
from mass.mathstat import power_spectrum as ps

WINDOWS = {"none": None, "hann": ps.hann, "bartlett": ps.bartlett, "welch": ps.welch, "hamming": ps.hamming}


def weights(rng, n):
    """-> (argument, weights) for segments of n"""
    k = rng.choice(list(WINDOWS) + ["vector", "list", "listfn"])
    if k in WINDOWS:
        f = WINDOWS[k]
        w = np.ones(n) if f is None else f(n)
        if not np.sum(w**2) > 1e-6:
            return None, np.ones(n), "none"
        return f, w, k
    w = rng.np.uniform(0.1, 2, n)
    return {"vector": w, "list": list(w), "listfn": lambda m: list(w)}[k], w, k


def dft2(x):
    """|transform|^2 at 0..n/2, from its definition"""
    n = len(x)
    t = np.arange(n)
    k = np.arange(n // 2 + 1)
    a = 2 * np.pi * ((k[:, None] * t) % n) / n
    return (np.cos(a) @ x)**2 + (np.sin(a) @ x)**2


def pgram(x, w, dt):
    return 2 * dt * dft2(np.asarray(w) * np.asarray(x, float)) / np.sum(np.asarray(w)**2)


def close(a, b, size, msg):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, msg + ": shape", got=a.shape, want=b.shape)
    check(np.all(np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-10 * size + 1e-300), msg, got=a, want=b)


def segment(rng, n):
    k = rng.randrange(5)
    g = rng.np
    x = g.normal(rng.choice([0, 0, 1000]), 5, n)
    if k == 1:
        x = np.rint(x).astype(rng.choice([np.int64, np.int16]))
    if k == 2:
        x = np.full(n, 3.0)
    if k == 3:
        x = np.cos(2 * np.pi * rng.randint(0, n // 2) * np.arange(n) / n)
    return x


@trial(weight=2, min_runs=200)
def accumulate(rng):
    m = rng.choice([1, 2, 3, 5, 8, 16])
    dt = rng.choice([1.0, 1e-5, 3.7])
    nseg = rng.size(6)
    segs, args = [segment(rng, 2 * m) for _ in range(nseg)], [weights(rng, 2 * m) for _ in range(nseg)]
    if nseg and rng.maybe(0.2):
        segs[0] = list(segs[0])
    note(m=m, dt=dt, windows=[a[2] for a in args])
    p = ps.PowerSpectrum(m, dt=dt)
    keep = [np.array(s) for s in segs]
    other = None
    for i, (s, (win, w, _)) in enumerate(zip(segs, args)):
        if i and rng.maybe(0.3):
            r = p.spectrum()
            r *= 7
            p.frequencies()
        if rng.maybe(0.2):
            other = p.copy()
            before = (p.specsum.copy(), p.nsegments)
            other.addDataSegment(segs[0], window=None)
            same(p.specsum, before[0], "a copy is accumulated by itself")
            check(p.nsegments == before[1], "a copy counts by itself")
        if rng.maybe(0.3):
            bad = rng.choice([2 * m - 1, 2 * m + 1, 0])
            check(raises(ValueError, p.addDataSegment, np.ones(bad), window=None), "segment of another length is refused")
            y = np.ones(2 * m)
            y[rng.randrange(2 * m)] = np.nan
            check(raises(ValueError, p.addDataSegment, y, window=None), "segment with NaN is refused")
        p.addDataSegment(s, window=win)
    for a, b in zip(segs, keep):
        same(np.array(a), b, "data unchanged")
    f = p.frequencies()
    same(f, np.arange(m + 1) / (2 * dt * m), "frequencies", rtol=1e-12)
    if not nseg:
        return
    each = [pgram(s, w, dt) for s, (_, w, _) in zip(keep, args)]
    size = dt * max(np.sum(np.asarray(s, float)**2) for s in keep) * 4
    close(p.spectrum(), np.mean(each, axis=0), size, "average periodogram")
    q = ps.PowerSpectrum(m, dt=dt)
    for i in rng.np.permutation(nseg):
        q.addDataSegment(segs[i], window=args[i][0])
    close(q.spectrum(), p.spectrum(), size, "another order of segments")
    # integrates to the mean square
    u = ps.PowerSpectrum(m, dt=dt)
    u.addDataSegment(keep[0])
    s = u.spectrum()
    integral = (s[1:-1].sum() + (s[0] + s[-1]) / 2) * f[1]
    ms = np.mean(np.asarray(keep[0], float)**2)
    check(abs(integral - ms) <= 1e-9 * ms + 1e-300, "integral is the mean square", got=integral, want=ms)
    nb = rng.randint(1, m)
    g, h = p.frequencies(nb), p.spectrum(nb)
    same(g, np.arange(nb + 1) / (2 * dt * nb), "rebinned frequencies", rtol=1e-12)
    check(len(h) == nb + 1 and np.all(np.isfinite(h)), "a value for each rebinned frequency", nbins=nb, got=h)
    if nb == m:
        close(h, p.spectrum(), 0, "as many bins as frequencies")
    lo, hi = p.spectrum().min(), p.spectrum().max()
    check(np.all((h >= lo * (1 - 1e-9)) & (h <= hi * (1 + 1e-9))), "rebinned values are averages", got=h)
    check(raises(ValueError, p.spectrum, m + 1) and raises(ValueError, p.frequencies, m + 1), "too many bins are refused")


@trial(weight=1, min_runs=100)
def long(rng):
    m = rng.choice([1, 2, 5])
    n = rng.choice([2 * m, 2 * m + 1, 4 * m, 10 * m + 3])
    dt = 0.5
    x = rng.np.normal(0, 5, n) + np.arange(n)
    win, w, kind = weights(rng, 2 * m)
    p = ps.PowerSpectrum(m, dt=dt)
    p.addLongData(x, window=win)
    each = [pgram(x[2 * m * i:2 * m * (i + 1)], w, dt) for i in range(n // (2 * m))]
    close(p.spectrum(), np.mean(each, axis=0), np.sum(x**2), "long data: every full segment once")
    o = ps.PowerSpectrumOverlap(m, dt=dt)
    k = n // m
    halves = [x[m * i:m * (i + 1)] for i in range(k)]
    if rng.maybe(0.3):
        halves[0] = np.rint(halves[0]).astype(int)
    for h in halves:
        if rng.maybe(0.2) and not o.first:
            o.copy().addDataSegment(np.ones(m) * 1e3, window=win)
        o.addDataSegment(h, window=win)
    if k > 1:
        each = [pgram(np.hstack(halves[i:i + 2]), w, dt) for i in range(k - 1)]
        close(o.spectrum(), np.mean(each, axis=0), np.sum(x**2), "overlapping segments: each pair of neighbours")
    # the convenience function
    sf = rng.choice([1, 1, 2])
    M = n // (2 * sf)
    if M < 1:
        return
    win, w, kind = weights(rng, 2 * M)
    if kind == "list":
        win = np.array(win)
    note(n=n, segfactor=sf, window=kind)
    f, s = ps.computeSpectrum(x, segfactor=sf, dt=dt, window=win)
    each = [pgram(x[:2 * M], w, dt)] if sf == 1 else [pgram(x[M * i:M * (i + 2)], w, dt) for i in range(2 * sf - 2)]
    close(s, np.mean(each, axis=0), np.sum(x**2), "convenience function")
    same(f, np.arange(M + 1) / (2 * M * dt), "its frequencies", rtol=1e-12)
    close(ps.computeSpectrum(x, segfactor=sf, window=win), np.mean(each, axis=0) / dt, np.sum(x**2), "without sample time")


def broken(x):
    n = x.shape[1]
    d = x - x.mean(axis=1)[:, None]
    return np.array([np.mean([np.dot(r[:n - l], r[l:]) / (n - l) for r in d]) for l in range(n)])


@trial(weight=1, min_runs=100)
def given(rng):
    ns, n = rng.choice([1, 2, 7, 20]), rng.choice([1, 2, 9])
    x = rng.np.normal(0, 3, (ns, n)) + 100 * rng.np.random(n)
    if rng.maybe(0.2):
        x = np.rint(x).astype(int)
    y = x.copy()
    note(ns=ns, n=n, dtype=str(x.dtype))
    ac = ps.autocorrelation_broken_from_pulses(x)
    same(x, y, "records unchanged")
    close(ac, broken(y.T.astype(float)), 1e3, "autocorrelation of given records")


@trial(weight=2, min_runs=25)
def noise(rng):
    """noise of a data set: spectrum and autocorrelation of its accepted records"""
    ns, n = rng.choice([8, 9, 16, 21]), rng.choice([1, 3, 10])
    lim = 100
    x = np.rint(1000 + rng.np.normal(0, 4, (n, ns)))
    loud = rng.np.random(n) < rng.choice([0, 0.4])
    if loud.all():
        loud[0] = False
    for i in np.flatnonzero(loud):
        if rng.maybe():
            x[i, rng.randrange(ns)] += rng.choice([200, -900, 5000])
        else:            # beyond the limit though no sample is that far from the mean
            x[i, ::2] += 70
            x[i, 1::2] -= 70
    # the last sample of a record of odd length is no part of its spectrum
    x = x.astype(np.uint16)
    d = tmpdir()
    pf, nf = os.path.join(d, "run_chan1.ljh"), os.path.join(d, "noise_chan1.ljh")
    write_ljh(pf, np.full((3, ns), 1000, np.uint16), np.arange(3), np.arange(3) * 1000, presamples=4)
    write_ljh(nf, x, np.arange(n), np.arange(n) * 1000, presamples=4)
    cont = rng.maybe(0.3)
    note(ns=ns, n=n, loud=loud.tolist(), continuous=cont)
    with quiet():
        g = mass.TESGroup([pf], [nf], noise_is_continuous=cont)
        ds = g.channel[1]
        nr = ds.noise_records
        nr.compute_power_spectrum_reshape(max_excursion=lim, seg_length=rng.choice([None, ns]))
    dt = ds.timebase
    m = ns // 2
    ok = [r[:2 * m].astype(float) for r in x if float(r[:2 * m].max()) - float(r[:2 * m].min()) < lim]
    if ok:
        w = ps.hann(2 * m)
        want = np.mean([pgram(r - r.mean(), w, dt) for r in ok], axis=0)
        close(nr.noise_psd[:], want, dt * 1e4, "noise spectrum")
        same(nr.noise_psd.attrs["delta_f"], 1 / (2 * m * dt), "frequency step", rtol=1e-12)
    if cont:
        seg = rng.choice([4, 6, ns])
        with quiet():
            spec = nr.compute_power_spectrum_reshape(max_excursion=1e6, seg_length=seg, window=None) if seg == ns else None
        if spec is not None:
            want = np.mean([pgram(r[:2 * m] - r[:2 * m].mean(), np.ones(2 * m), dt) for r in x.astype(float)], axis=0)
            close(spec.spectrum(), want, dt * 1e8, "unwindowed")
        return
    a, b = 0, n
    if rng.maybe(0.3):
        a = rng.randint(0, n - 1)
        b = rng.randint(a + 1, n)
    use = ~loud[a:b]
    if not use.any():
        return
    with quiet():
        if (a, b) == (0, n) and rng.maybe():
            ds.compute_noise(max_excursion=lim, forceNew=True)
            ac = ds.noise_autocorr[:]
        else:
            nr.compute_autocorrelation(n_lags=ns, data_samples=None if (a, b) == (0, n) and rng.maybe() else [max(0, a * ns - rng.randint(0, ns - 1)), b * ns + rng.randint(0, ns - 1)],
                                       plot=False, max_excursion=lim)
            ac = nr.autocorrelation[:]
    close(ac, broken(x[a:b][use].astype(float)), 1e4, "noise autocorrelation")
