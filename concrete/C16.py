import types
import numpy as np
import mass
from lib import *
from mktes import tes, quiet
from mass.core.analysis_algorithms import filter_data_5lag_cython
from mass.off import fivelag
from mkdata import record

FIT = np.array(((-6, 24, 34, 24, -6), (-14, -7, 0, 7, 14), (10, -5, -10, -5, 10))) / 70.0


def fivelag_of(x, f):
    """peak and position of the least-squares parabola through the five lagged products; and how well they are determined"""
    x = np.asarray(x, float)
    ns = x.shape[1]
    conv = np.array([[np.dot(r[j:ns - 4 + j], f) for r in x] for j in range(5)]).reshape(5, len(x))
    lag = np.arange(-2, 3)
    V = np.stack([np.ones(5), lag, lag**2]).T
    c, b, a = np.linalg.lstsq(V, conv, rcond=None)[0]
    size = np.array([np.abs(np.concatenate([r[j:ns - 4 + j] * f for j in range(5)])).sum() for r in x])
    with np.errstate(all="ignore"):
        # rounding in a is about 1e-15 of the summed terms; skip records that leave the curvature undetermined
        good = np.abs(a) > 1e-9 * (size + 1e-30)
        return c - 0.25 * b**2 / a, -0.5 * b / a, good, (np.abs(c) + np.abs(0.25 * b**2 / a) + size * 1e-6)


def filt(rng, n):
    g = rng.np
    k = rng.randrange(4)
    f = g.normal(0, 1, n)
    if k == 1:
        f = np.concatenate([np.zeros(n // 2), np.exp(-np.arange(n - n // 2) / 5.0)])
        f -= f.mean()
    if k == 2:
        f[:rng.randint(0, n // 2)] = 0
    if k == 3:
        f *= 1e-3
    return f


def check5(v, p, x, f, what, single=True):
    y, ph, good, size = fivelag_of(x, f)
    eps = 2e-7 if single else 1e-8
    with np.errstate(all="ignore"):
        check(np.all(~good | (np.abs(v - y) <= eps * (np.abs(y)) + 3e-6 * size * 1e-1 + 1e-9 * size)), what + ": height", got=v, want=y)
        check(np.all(~good | (np.abs(p - ph) <= 1e-5 * (1 + np.abs(ph) + (ph**2) * 1e-2)) | (np.abs(ph) > 1e4)), what + ": phase", got=p, want=ph)


@trial(weight=2, min_runs=100)
def compiled(rng):
    ns = rng.choice([8, 9, 13, 40])
    n = rng.choice([0, 1, 2, 7, 25])
    x = record(rng, n, ns, max(2, ns // 3)) if n else np.zeros((0, ns), np.uint16)
    f = filt(rng, ns - 4)
    note(ns=ns, n=n)
    v, p = filter_data_5lag_cython(x, f) if rng.maybe() else filter_data_5lag_cython(x, f, rng.choice([1, 2, 100]))
    check(len(v) == n and len(p) == n, "one result per record", got=(len(v), len(p)))
    if n:
        check5(v, p, x, f, "compiled", single=False)
        i = rng.randrange(n)
        v1, p1 = filter_data_5lag_cython(x[i:i + 1], f)
        same((v1[0], p1[0]), (v[i], p[i]), "record alone")
        o = rng.np.permutation(n)
        v2, p2 = filter_data_5lag_cython(np.ascontiguousarray(x[o]), f)
        same(v2, v[o], "records in another order: height")
        same(p2, p[o], "records in another order: phase")
    for k in (-1, 1, 4):
        check(raises((ValueError, IndexError, AssertionError), filter_data_5lag_cython, x, filt(rng, max(1, ns - 4 + k))), "filter of another length is refused")


def half(d):
    """a transform of each sample"""
    return np.sign(d) * np.sqrt(np.abs(d)) + 0.25 * d


def dset(rng, **k):
    ns = k.get("ns", rng.choice([16, 33]))
    pre = rng.randint(6, ns - 8)
    n = rng.choice([1, 2, 7, 30])
    data = record(rng, n, ns, pre)
    per = rng.choice([1, 2, 3, 7, 1000])
    inv = rng.maybe(0.25)
    with quiet(), np.errstate(all="ignore"):
        partial = rng.maybe(0.2)
        g = tes(rng, chans=(1,), ns=ns, pre=pre, data={1: data}, summarize=False, tail=b"x" * rng.randint(1, 16 + 2 * ns - 1) if partial else b"")
        ds = g.first_good_dataset
        if inv:
            ds.invert_data = True
            data = ~data
        ds.summarize_data(use_cython=True, forceNew=True)
        ds.pulse_records.set_segment_size(per * ds.pulse_records.datafile.pulse_size_bytes)
    if not hasattr(ds, "_filter_type"):
        raise Skip
    note(n=n, ns=ns, pre=pre, pulses_per_segment=per, inverted=inv, partial_record_at_end=partial)
    return g, ds, data


@trial(weight=2, min_runs=20)
def five(rng):
    g, ds, x = dset(rng)
    n, ns = x.shape
    f = filt(rng, ns - 4)
    ds.filter = types.SimpleNamespace(values=f)
    ds._filter_type = "5lag"
    cy = rng.choice([None, True, False])
    tr = rng.choice([None, None, half]) if cy is not True else None
    note(use_cython=cy, transform=tr is not None)
    with quiet(), np.errstate(all="ignore"):
        ds.filter_data(use_cython=cy, transform=tr, forceNew=True)
    y = x if tr is None else tr(x - ds.p_pretrig_mean[:][:, None])
    check5(ds.p_filt_value[:].astype(float), ds.p_filt_phase[:].astype(float), y, f, "5-lag")
    if cy is not True and tr is not None:
        try:
            with quiet():
                ds.p_filt_value[:] = 7
                ds.filter_data(use_cython=True, transform=tr, forceNew=True)
        except Exception:
            return
        check5(ds.p_filt_value[:].astype(float), ds.p_filt_phase[:].astype(float), y, f, "compiled with a transform")


@trial(weight=2, min_runs=20)
def ats(rng):
    g, ds, x = dset(rng)
    n, ns = x.shape
    shift = rng.maybe(0.7)
    m = ns - 1 if shift else ns
    f, dt = filt(rng, m), filt(rng, m)
    ds.filter = types.SimpleNamespace(values=f, dt_values=dt)
    ds._filter_type = "ats"
    tr = rng.choice([None, half])
    sh = rng.np.random(n) < 0.5
    if rng.maybe(0.2):
        sh[:] = rng.maybe()
    ds.p_shift1[:] = sh
    note(shift=shift, shifted=sh.tolist(), transform=tr is not None)
    with quiet(), np.errstate(all="ignore"):
        ds.filter_data(transform=tr, forceNew=True)
    y = x.astype(float) if tr is None else tr(x - ds.p_pretrig_mean[:][:, None])
    v, p = ds.p_filt_value[:].astype(float), ds.p_filt_phase[:].astype(float)
    for i in range(n):
        r = y[i] if not shift else (y[i, :-1] if sh[i] else y[i, 1:])
        a, b = np.dot(r, f), np.dot(r, dt)
        sa, sb = np.dot(np.abs(r), np.abs(f)), np.dot(np.abs(r), np.abs(dt))
        check(abs(v[i] - a) <= 2e-7 * abs(a) + 1e-12 * sa + 1e-30, "ats: height", record=i, got=v[i], want=a)
        if abs(a) > 1e-6 * sa:
            check(abs(p[i] - b / a) <= 1e-6 * abs(b / a) + 1e-5 * sb * 1e-6 / abs(a) + 1e-30, "ats: phase", record=i, got=p[i], want=b / a)


@trial(weight=1)
def off(rng):
    """five-lag values in a basis are those of the records it reconstructs"""
    ns, nb, n = rng.choice([8, 9, 30]), rng.choice([3, 4, 6]), rng.choice([1, 2, 9])
    B = rng.np.normal(0, 1, (ns, nb))
    f = filt(rng, ns - 4)
    co = rng.np.normal(0, 1, (n, nb)) * rng.choice([1, 1000])
    inb, fit = fivelag.calc_5lag_fit_matrix(f, B)
    cba = co @ fit
    x = co @ B.T
    for j in range(5):
        same(inb[j], f @ B[j:ns - 4 + j], "lagged products with the basis", rtol=1e-9, atol=1e-12)
    y, ph, good, size = fivelag_of(x, f)
    with np.errstate(all="ignore"):
        v, p = fivelag.filtValue5Lag(cba), fivelag.peakX5Lag(cba)
    check5(v, p, x, f, "off")
