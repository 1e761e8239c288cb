import contextlib, io, json, os
import h5py
import numpy as np
from lib import *
from mkdata import write_ljh
import mass
from mass.core import ljh2off as l2o
from mass.core.pulse_model import PulseModel


def read_off(path):
    """independent reader of a version 0.3.0 file"""
    raw = open(path, "rb").read()
    k = raw.index(b"\n}\n") + 3
    h = json.loads(raw[:k])
    P, B = h["ModelInfo"]["Projectors"], h["ModelInfo"]["Basis"]
    nb, ns = P["Rows"], P["Cols"]
    check(h["NumberOfBases"] == nb and (B["Rows"], B["Cols"]) == (ns, nb) and h["FileFormat"] == "OFF" and h["FileFormatVersion"] == "0.3.0", "header", header=h)
    p = np.frombuffer(raw[k:k + 8 * nb * ns], "<f8").reshape(nb, ns)
    b = np.frombuffer(raw[k + 8 * nb * ns:k + 16 * nb * ns], "<f8").reshape(ns, nb)
    dt = np.dtype([("recordSamples", "<i4"), ("recordPreSamples", "<i4"), ("framecount", "<i8"), ("unixnano", "<i8"), ("pretriggerMean", "<f4"),
                   ("pretriggerDelta", "<f4"), ("residualStdDev", "<f4"), ("coefs", "<f4", (nb,))])
    body = raw[k + 16 * nb * ns:]
    check(len(body) % dt.itemsize == 0, "whole records only", left=len(body) % dt.itemsize)
    return h, p, b, np.frombuffer(body, dt)


def ljh(rng, d, name, ns, pre, n, tbs="9.6e-06", ch=3):
    data = rng.np.integers(0, 65536, (n, ns)).astype(np.uint16)
    if rng.maybe(0.5):
        data = (1000 + 50 * rng.np.random((n, ns)) + np.where(np.arange(ns) >= pre, 20000 * np.exp(-(np.arange(ns) - pre) / 9.0), 0)).astype(np.uint16)
    nrows = rng.choice([1, 4, 30])
    off = rng.choice([0, 0, nrows - 1])
    sub, us = rng.np.integers(0, 2**40, n), 1_500_000_000_000_000 + rng.np.integers(0, 2**44, n)
    f = os.path.join(d, name)
    write_ljh(f, data, sub, us, presamples=pre, timebase=tbs,
              extra=(f"Row number (from 0-{nrows - 1} inclusive): {off}", "Column number (from 0-0 inclusive): 0", f"Number of rows: {nrows}", "Number of columns: 1"))
    return f, data, sub, us, nrows, off


def expect(P, B, data, sub, us, nrows, pre, ign, recs, at):
    x = data.astype(float)
    co = x @ P.T
    res = co @ B.T - x
    pt = x[:, :pre - ign]
    t = np.arange(pre - ign)
    slope = ((t - t.mean()) * (pt - pt.mean(axis=1)[:, None])).sum(axis=1) / ((t - t.mean())**2).sum()
    n = len(data)
    r = recs[at:at + n]
    sc = np.abs(x).sum(axis=1).max() if n else 1
    rel = lambda got, want, tol, msg: check(np.all(np.abs(got - want) <= tol), msg, got=got[:6], want=want[:6], first_bad=int(np.argmax(np.abs(got - want) > tol)) if n else None)
    same(r["recordSamples"], np.full(n, data.shape[1]), "record length")
    same(r["recordPreSamples"], np.full(n, pre), "pretrigger length")
    same(r["framecount"], sub // nrows, "frame counts")
    check(np.all(np.abs(r["unixnano"] - us * 1000) <= 1000), "times", got=r["unixnano"][:4], want=us[:4])
    if not n:
        return
    rel(r["pretriggerMean"], pt.mean(axis=1), 0.01, "pretrigger means")
    rel(r["pretriggerDelta"], slope * (pre - ign - 1), 0.1, "pretrigger drift")
    a = np.abs(P).max() * sc
    rel(r["coefs"], co, 1e-6 * np.maximum(np.abs(co), a * 1e-3), "coefficients")
    s = res.std(axis=1)
    rel(r["residualStdDev"], s, 1e-5 * (s + np.abs(x).max() * (1 + np.abs(B).max() * np.abs(P).max() * P.size)) * 1e-1, "residuals")


def model(rng, ns, nb):
    t = np.linspace(0, 1, ns)
    B = np.vstack([t**k for k in range(nb)]).T + 0.1 * rng.np.normal(size=(ns, nb))
    return np.ascontiguousarray(np.linalg.pinv(B)), np.ascontiguousarray(B)


def shape(rng):
    ns = rng.choice([12, 20, 50])
    pre = rng.randint(4, ns - 3)
    return ns, pre, rng.choice([0, 0, 1, pre - 2]), rng.choice([3, 3, 4, 6])


@trial(weight=2, min_runs=60)
def convert(rng):
    ns, pre, ign, nb = shape(rng)
    d = tmpdir()
    P, B = model(rng, ns, nb)
    k = rng.choice([1, 1, 2, 3])
    names = rng.sample(["f0", "f1", "a", "zz", "B"], k)
    fs = [ljh(rng, d, f"{i}_chan3.ljh", ns, pre, rng.choice([0, 1, 2, 7, 40])) for i in names]
    if k > 1 and rng.maybe(0.2):
        fs.append(rng.choice(fs))       # the same file again
    out = os.path.join(d, "o_chan3.off")
    note(files=[os.path.basename(f[0]) for f in fs], lengths=[len(f[1]) for f in fs], ns=ns, pre=pre, ignore=ign, nbasis=nb)
    before = [open(f[0], "rb").read() for f in fs]
    if k == 1 and rng.maybe():
        l2o.ljh2off(fs[0][0], out, P, B, ign, "m.hdf5")
    else:
        l2o.multi_ljh2off([f[0] for f in fs], out, P, B, ign, "m.hdf5")
    check([open(f[0], "rb").read() for f in fs] == before, "the input files are unchanged")
    h, p, b, recs = read_off(out)
    same(p, P, "projectors")
    same(b, B, "basis")
    check(abs(h["FramePeriodSeconds"] - 9.6e-6) < 1e-15, "frame period", got=h["FramePeriodSeconds"])
    check(len(recs) == sum(len(f[1]) for f in fs), "one entry per record", got=len(recs))
    at = 0
    for f, data, sub, us, nrows, off in fs:
        expect(P, B, data, sub, us, nrows, pre, ign, recs, at)
        at += len(data)
    o = mass.off.OffFile(out)
    check(len(o) == len(recs), "the OFF reader sees them all")
    if len(recs):
        same(np.asarray(o["filtValue"]), recs["coefs"][:, 2], "coefficients read back")


@trial(weight=1, min_runs=2, max_runs=12)
def long_file(rng):
    """more than one chunk: two megabytes of records and up"""
    ns, pre, ign, nb = rng.choice([(1000, 100, 3, 3), (4000, 700, 0, 4)])
    psz = 2 * ns + 16
    per = 2**21 // psz
    n = rng.choice([per - 1, per, per + 1, 2 * per + 1, 2 * per])
    d = tmpdir()
    P, B = model(rng, ns, nb)
    f, data, sub, us, nrows, off = ljh(rng, d, "f_chan3.ljh", ns, pre, n)
    note(records=n, ns=ns, per_chunk=per)
    out = os.path.join(d, "o_chan3.off")
    l2o.ljh2off(f, out, P, B, ign, "m.hdf5")
    h, p, b, recs = read_off(out)
    check(len(recs) == n, "one entry per record", got=len(recs), want=n)
    expect(P, B, data, sub, us, nrows, pre, ign, recs, 0)


@trial(weight=0.7, min_runs=12)
def channels(rng):
    """the loop over channels of a model file"""
    ns, pre, ign, nb = shape(rng)
    d = tmpdir()
    chans = sorted(rng.sample([1, 2, 3, 9, 10, 12], rng.randint(1, 4)))
    have = [c for c in chans if rng.maybe(0.8)]
    files, models = {}, {}
    with h5py.File(os.path.join(d, "model.hdf5"), "w") as h:
        for c in chans:
            P, B = model(rng, ns, nb)
            models[c] = (P.copy(), B.copy())
            PulseModel(P, B, nb, np.zeros((ns, 1)), 0.1, 1.0, 2.0, "x", 0, np.zeros(1), np.zeros(1), np.zeros(1), 1.0, np.zeros(1)).toHDF5(h.create_group(str(c)), False)
    for c in have:
        files[c] = ljh(rng, d, f"run_chan{c}.ljh", ns, pre, rng.choice([0, 1, 6]), ch=c)
    mx = rng.choice([1, 2, 100])
    out = os.path.join(d, "out")
    os.mkdir(out)
    note(model_channels=chans, files=have, max_channels=mx)
    with contextlib.redirect_stdout(io.StringIO()):
        a, b = l2o.ljh2off_loop(os.path.join(d, f"run_chan{chans[0]}.ljh"), os.path.join(d, "model.hdf5"), out, mx, ign, require_experiment_state=False,
                                show_progress=False)
    want = have[:mx]
    check([os.path.basename(x) for x in a] == [f"run_chan{c}.ljh" for c in want], "channels converted", got=a)
    check(sorted(os.listdir(out)) == sorted(f"run_chan{c}.off" for c in want), "one OFF file per channel", got=os.listdir(out))
    for c in want:
        h, p, q, recs = read_off(os.path.join(out, f"run_chan{c}.off"))
        same(p, models[c][0], "each channel's own projectors")
        f, data, sub, us, nrows, off = files[c]
        check(len(recs) == len(data), "one entry per record")
        expect(models[c][0], models[c][1], data, sub, us, nrows, pre, ign, recs, 0)


@trial(weight=0.5, min_runs=8)
def several_runs(rng):
    """the loop over channels, several files per channel"""
    ns, pre, ign, nb = shape(rng)
    d = tmpdir()
    chans = sorted(rng.sample([1, 2, 3, 9, 10], rng.randint(1, 3)))
    bases = [os.path.join(d, x) for x in rng.sample(["run2", "run1", "a", "z"], rng.randint(1, 3))]
    models = {}
    with h5py.File(os.path.join(d, "model.hdf5"), "w") as h:
        for c in chans:
            P, B = models[c] = model(rng, ns, nb)
            PulseModel(P.copy(), B.copy(), nb, np.zeros((ns, 1)), 0.1, 1.0, 2.0, "x", 0, np.zeros(1), np.zeros(1), np.zeros(1), 1.0, np.zeros(1)).toHDF5(h.create_group(str(c)), False)
    files = {c: [ljh(rng, d, f"{os.path.basename(b)}_chan{c}.ljh", ns, pre, rng.choice([0, 1, 6]), ch=c) for b in bases] for c in chans}
    note(channels=chans, runs=[os.path.basename(b) for b in bases])
    with contextlib.redirect_stdout(io.StringIO()):
        l2o.multi_ljh2off_loop(bases, os.path.join(d, "model.hdf5"), os.path.join(d, "out"), 100, ign, show_progress=False)
    for c in chans:
        h, p, q, recs = read_off(os.path.join(d, f"out_chan{c}.off"))
        check(len(recs) == sum(len(f[1]) for f in files[c]), "one entry per record")
        at = 0
        for f, data, sub, us, nrows, off in files[c]:
            expect(models[c][0], models[c][1], data, sub, us, nrows, pre, ign, recs, at)
            at += len(data)


@trial(weight=0.3, min_runs=8)
def wrong_length(rng):
    ns, pre, ign, nb = shape(rng)
    d = tmpdir()
    P, B = model(rng, ns + rng.choice([-1, 1]), nb)
    f = ljh(rng, d, "f_chan3.ljh", ns, pre, 3)[0]
    check(raises(AssertionError, l2o.ljh2off, f, os.path.join(d, "o_chan3.off"), P, B, ign, "m"), "projectors of another length are refused")
