import numpy as np
import mass
from lib import *
from mktes import tes, quiet
from mkdata import record
from mass.core.cython_channel import summarize_data_cython

F32 = np.float32


def expect(r, data, pre, ign, cpre, cpost, compiled, what):
    """each stored quantity against its definition"""
    ns = data.shape[1]
    d = data.astype(float)
    use = d[:, cpre:pre - ign]
    m = use.mean(axis=1)
    rms = use.std(axis=1)
    eps = 3e-7
    check(np.all(np.abs(r["pretrig_mean"] - m) <= eps * (1 + m)), what + ": pretrigger mean", got=r["pretrig_mean"], want=m)
    check(np.all(np.abs(r["pretrig_rms"] - rms) <= 1e-3 + 1e-6 * (rms + m)), what + ": pretrigger rms", got=r["pretrig_rms"], want=rms)
    same(r["min_value"], d[:, cpre:ns - cpost].min(axis=1), what + ": minimum")
    if compiled:
        pk, after = d[:, cpre:ns - cpost], d[:, pre - 1:ns - cpost]
        first = cpre
    else:
        pk, after = d[:, pre:ns - cpost], d[:, pre:ns - cpost]
        first = pre
    top = pk.max(axis=1)
    good = top > m
    check(np.all(np.abs(r["peak_value"].astype(float) - np.where(good, top - m, 0)) <= np.where(good, 1, 0)), what + ": peak value", got=r["peak_value"], want=top - m)
    idx = pk.argmax(axis=1) + first
    check(np.all((r["peak_index"] == idx) | ~good), what + ": first peak index", got=r["peak_index"], want=idx)
    avg = after.mean(axis=1) - m
    check(np.all(np.abs(r["pulse_average"] - avg) <= eps * (1 + np.abs(avg)) + 1e-6), what + ": pulse average", got=r["pulse_average"], want=avg)
    prms = np.sqrt(((after - m[:, None]) ** 2).mean(axis=1))
    # the squares cancel in double precision
    check(np.all(np.abs(r["pulse_rms"] - prms) <= 1e-6 * prms + np.minimum(1e-2, 1e-11 * (after**2).max(axis=1) / (prms + 1e-9)) + 1e-3), what + ": pulse rms", got=r["pulse_rms"], want=prms)


FIELDS = ("pretrig_mean", "pretrig_rms", "pulse_average", "pulse_rms", "peak_index", "peak_value", "min_value")
OWN = FIELDS + ("promptness", "postpeak_deriv", "shift1")


@trial(weight=2, min_runs=100)
def compiled(rng):
    ns = rng.choice([12, 20, 60])
    pre = rng.randint(3, ns - 2)
    ign = rng.randint(0, min(3, pre - 1))
    n = rng.choice([1, 2, 5, 30])
    data = record(rng, n, ns, pre)
    peak = rng.randint(0, ns - 1)
    note(pre=pre, ignore=ign, peak_sample=peak, data=data.tolist()[:3])
    r = {k: np.array(v) for k, v in summarize_data_cython(data, 1e-5, peak, ign, pre).items()}
    ok = np.zeros(n, bool) if pre - ign < 1 else np.ones(n, bool)
    expect(r, data, pre, ign, 0, 0, True, "compiled")
    # each record alone, in another order, in the middle of others
    i = rng.randrange(n)
    one = summarize_data_cython(data[i:i + 1], 1e-5, peak, ign, pre)
    order = rng.np.permutation(n)
    other = summarize_data_cython(np.ascontiguousarray(data[order]), 1e-5, peak, ign, pre)
    for k in OWN + ("rise_times",):
        same(np.array(one[k])[0], r[k][i], f"record alone: {k}")
        same(np.array(other[k]), r[k][order], f"records in another order: {k}")
    a = rng.randint(0, n - 1)
    b = rng.randint(a + 1, n)
    part = summarize_data_cython(data, 1e-5, peak, ign, pre, a, b)
    for k in OWN:
        same(np.array(part[k]), r[k][a:b], f"records {a} to {b}: {k}")


@trial(weight=0.2, min_runs=1, max_runs=3)
def many(rng):
    """one chunk of more records than 16 bits count"""
    n, ns, pre = rng.choice([65536, 65540, 70001]), 12, 4
    data = record(rng, 40, ns, pre)[rng.np.integers(0, 40, n)]
    r = {k: np.array(v) for k, v in summarize_data_cython(data, 1e-5, 4, 1, pre).items()}
    check(len(r["min_value"]) == n, "one result per record", got=len(r["min_value"]), want=n)
    expect(r, data, pre, 1, 0, 0, True, "many records")


@trial(weight=2, min_runs=25)
def dataset(rng):
    """summarize_data of a file, compiled or plain, in any chunks"""
    ns = rng.choice([20, 40])
    pre = rng.randint(8, ns - 10)
    n = rng.choice([1, 2, 7, 33])
    data = record(rng, n, ns, pre)
    cy = rng.maybe()
    cpre, cpost = (rng.choice([0, 1, 2]), rng.choice([0, 1, 3])) if rng.maybe() else (0, 0)
    ign = rng.choice([0, 1, 3])
    per = rng.choice([1, 2, 3, 100])
    invert = rng.maybe(0.2)
    note(n=n, ns=ns, pre=pre, compiled=cy, cut_pre=cpre, cut_post=cpost, ignore=ign, pulses_per_segment=per, inverted=invert)
    with quiet():
        g = tes(rng, chans=(1,), ns=ns, pre=pre, data={1: data}, summarize=False)
        ds = g.first_good_dataset
        if invert:
            ds.invert_data = True
            data = ~data
        ds.pulse_records.set_segment_size(per * ds.pulse_records.datafile.pulse_size_bytes)
        check(ds.pulse_records.pulses_per_seg == per, "chunk size")
        kw = {} if rng.maybe(0.5) else {"peak_time_microsec": rng.randint(1, ns - pre - 9) * ds.timebase * 1e6 + 1e-3}
        with np.errstate(all="ignore"):
            ds.summarize_data(use_cython=cy, forceNew=True, cut_pre=cpre, cut_post=cpost, pretrigger_ignore_microsec=(ign + 0.2) * ds.timebase * 1e6, **kw)
    r = {k: getattr(ds, "p_" + k)[:] for k in FIELDS}
    check(g.good_channels == [1] if hasattr(g, "good_channels") else True, "channel is good")
    expect(r, data, pre, ign, cpre, cpost, cy, "stored")


@trial(weight=1.5, min_runs=25)
def agree(rng):
    """compiled and plain on the same file"""
    ns = rng.choice([20, 40])
    pre = rng.randint(8, ns - 10)
    n = rng.choice([1, 4, 12])
    data = record(rng, n, ns, pre)
    note(n=n, ns=ns, pre=pre)
    out = []
    with quiet(), np.errstate(all="ignore"):
        g = tes(rng, chans=(1,), ns=ns, pre=pre, data={1: data}, summarize=False)
        ds = g.first_good_dataset
        for cy in (True, False):
            ds.summarize_data(use_cython=cy, forceNew=True)
            out.append({k: getattr(ds, "p_" + k)[:] for k in FIELDS})
    a, b = out
    m = data[:, :pre - 3].astype(float).mean(axis=1)
    same(a["pretrig_mean"], b["pretrig_mean"], "pretrigger mean", rtol=3e-7)
    check(np.all(np.abs(a["pretrig_rms"] - b["pretrig_rms"]) <= 2e-3 + 1e-6 * (b["pretrig_rms"] + m)), "pretrigger rms", a=a["pretrig_rms"], b=b["pretrig_rms"])
    same(a["min_value"], b["min_value"], "minimum")
    d = data.astype(float)
    late = (d[:, pre:].max(axis=1) > d[:, :pre].max(axis=1)) & (d.max(axis=1) > m)
    check(np.all(~late | (a["peak_index"] == b["peak_index"])), "first peak index", a=a["peak_index"], b=b["peak_index"])
    check(np.all(~late | (np.abs(a["peak_value"].astype(int) - b["peak_value"]) <= 1)), "peak value", a=a["peak_value"], b=b["peak_value"])
