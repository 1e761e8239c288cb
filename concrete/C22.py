import numpy as np, h5py, os
from lib import *
from mktes import *
from mass.core.analysis_algorithms import drift_correct, correct_flux_jumps
from mass.off.channels import DriftCorrection


@trial(weight=1, min_runs=60)
def correction_object(rng):
    n = rng.size(12)
    ind, unc = rng.np.normal(size=n) * 10, rng.np.normal(size=n) * 100
    ref, slope = rng.uniform(-20, 20), rng.choice([0.0, 1e-4, -3e-3, rng.uniform(-1, 1)])
    if n and rng.maybe():
        ind[rng.randrange(n)] = ref
    note(ind=ind.tolist(), unc=unc.tolist(), ref=ref, slope=slope)
    d = DriftCorrection("ind", b"unc" if rng.maybe() else "unc", ref, slope)
    out = d.apply(ind, unc)
    same(out, unc * (1 + slope * (ind - ref)), "corrected value", rtol=1e-12, atol=1e-12)
    same(d(ind, unc), out, "calling applies")
    same(out[ind == ref], unc[ind == ref], "a pulse at the reference is unchanged")
    p = os.path.join(tmpdir(), "a.h5")
    nm = {"name": "x/y"} if rng.maybe() else {}
    with h5py.File(p, "w") as h:
        d.toHDF5(h, **nm)
    with h5py.File(p, "r") as h:
        e = DriftCorrection.fromHDF5(h, **nm)
    same(e.apply(ind, unc), out, "reloaded correction")
    check(e == d and (e.indicatorName, e.uncorrectedName) == ("ind", "unc"), "reloaded correction is equal")


@trial(weight=1.5, min_runs=100)
def flux(rng):
    n = rng.size(15, empty=False)
    q = rng.choice([1.0, 0.5, 4096.0, 4096, 1000, 3.7])
    spread = rng.choice([0.01, 0.3, 0.9])
    base = rng.choice([0.0, 0.02, 0.5, 0.98, 3.3]) * q
    v = base + q * (rng.np.integers(-3 if rng.maybe(0.3) else 0, 4, n) + rng.np.uniform(-spread / 2, spread / 2, n))
    if rng.maybe(0.2):
        v = base + rng.np.uniform(0, 0.3, n) * q
    dt = rng.choice([np.float64, np.float64, np.float32, np.int64])
    v = v.astype(dt)
    g = rng.np.random(n) < 0.8
    g[rng.randrange(n)] = True
    note(vals=v.tolist(), good=g.tolist(), quantum=q, dtype=str(dt))
    w = v.copy()
    c = correct_flux_jumps(v, g, q)
    same(v, w, "the values passed in are unchanged")
    check(len(c) == n, "one value per pulse")
    k = (c - v.astype(float)) / q
    check(np.all(np.abs(k - np.rint(k)) < (1e-3 if dt == np.float32 else 1e-9)), "every value changes by a whole number of flux quanta", change=k)


@trial(weight=1.5, min_runs=6)
def group_flux_and_drift(rng):
    n = rng.randint(6, 14)
    g = tes(rng, n=n)
    q = rng.choice([500.0, 4096.0])
    orig = {}
    for ds in g:
        v = (1000 + rng.np.normal(0, 2, n) + q * rng.np.integers(0, 3, n)).astype(np.float32)
        ds.p_pretrig_mean[:] = v
        orig[ds.channum] = v
    g.correct_flux_jumps(q)
    check(not any(g.why_chan_bad.values()), "no channel was lost", why=g.why_chan_bad)
    for ds in g:
        k = (ds.p_pretrig_mean[:] - orig[ds.channum].astype(float)) / q
        check(np.all(np.abs(k - np.rint(k)) < 1e-4), "whole flux quanta", change=k)
    # drift correction of the group
    for ds in g:
        ds.p_pretrig_mean[:] = rng.np.normal(1000, 5, n)
        ds.p_filt_value[:] = 4000 * (1 + 1e-3 * (ds.p_pretrig_mean[:] - 1000)) + rng.np.normal(0, 1, n)
        m = np.zeros(n, dtype=bool)
        m[rng.sample(range(n), k=rng.randint(0, 3))] = True
        ds.cuts.cut("energy", m)
        ds.p_pretrig_mean[m] = 2000.0
        ds.p_filt_value[m] = 77.0
    note(n=n, good={ds.channum: ds.good().tolist() for ds in g}, ptm={ds.channum: ds.p_pretrig_mean[:].tolist() for ds in g})
    g.drift_correct(forceNew=rng.maybe())
    check(not any(g.why_chan_bad.values()), "no channel was lost", why=g.why_chan_bad)
    for ds in g:
        good = ds.good()
        slope, info = drift_correct(ds.p_pretrig_mean[good], ds.p_filt_value[good])
        ref = np.median(ds.p_pretrig_mean[good])
        same(ds.p_filt_value_dc.attrs["median_pretrig_mean"], ref, "reference is the median of the good pulses", rtol=1e-6)
        same(ds.p_filt_value_dc.attrs["slope"], slope, "slope learned from the good pulses", rtol=1e-6)
        same(ds.p_filt_value_dc[:], ds.p_filt_value[:] * (1 + slope * (ds.p_pretrig_mean[:] - ref)), "corrected values of all pulses", rtol=1e-5)
    g.hdf5_file.close()


@trial(weight=1, min_runs=15)
def learned(rng):
    n = rng.randint(8, 40)
    ind = rng.np.normal(1000, 5, n)
    a = rng.uniform(-2e-3, 2e-3)
    unc = rng.choice([1.0, 5000.0]) * np.where(rng.np.random(n) < 0.5, 1, 0.6) / (1 + a * (ind - np.median(ind)))
    note(ind=ind.tolist(), unc=unc.tolist())
    i0, u0 = ind.copy(), unc.copy()
    s, info = drift_correct(ind, unc)
    same(ind, i0, "inputs unchanged")
    same(unc, u0, "inputs unchanged")
    same(info["median_pretrig_mean"], np.median(ind), "reference is the median")
    check(info["slope"] == s and info["type"] == "ptmean_gain", "info carries the slope")


@trial(weight=1, min_runs=4)
def off_learn(rng):
    n = rng.randint(10, 30)
    recs = {}
    for ch in (1, 3):
        r = off_records(rng, n, 4)
        r["coefs"][:, 2] = np.where(rng.np.random(n) < 0.5, 3000, 5000) * (1 - 1e-4 * r["pretriggerMean"])
        recs[ch] = r
    g, _ = offgroup(rng, recs=recs, nbasis=4, states=("A", "B"))
    for ds in g.values():
        ds.cutAdd("cutOdd", lambda framecount: framecount % 3 > 0, ["framecount"])
    st = rng.choice([None, "A", ["A", "B"]])
    cut = rng.choice([None, "cutOdd"])
    note(n=n, states=st, cut=cut)
    g.learnDriftCorrection(states=st, cutRecipeName=cut)
    for ch, ds in g.items():
        check(not ds.markedBadBool, "channel not lost", why=getattr(ds, "markedBadReason", ""))
        i, u = ds.getAttr(["pretriggerMean", "filtValue"], st, cut)
        s, info = drift_correct(i, u)
        allp, allf = recs[ch]["pretriggerMean"].astype(float), recs[ch]["coefs"][:, 2].astype(float)
        same(ds.getAttr("filtValueDC", slice(0, n), cutRecipeName="cutNone"), allf * (1 + s * (allp - np.median(i))), "recipe applies the learned gain", rtol=1e-4)
