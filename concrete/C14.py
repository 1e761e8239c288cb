import numpy as np
from lib import *
from mass.core.analysis_algorithms import nearest_arrivals

MAX = np.iinfo(np.int64).max


def oracle(p, t):
    last, nxt = [], []
    for x in p:
        le = [y for y in t if y <= x]
        gt = [y for y in t if y > x]
        last.append(x - max(le) if le else MAX)
        nxt.append(min(gt) - x if gt else MAX)
    return np.array(last, dtype=np.int64), np.array(nxt, dtype=np.int64)


def times(rng, n, span):
    base = rng.choice([0, 0, 10**6, 2**40])
    return sorted(base + rng.randint(0, span) for _ in range(n))


@trial(weight=3, min_runs=300)
def nearest(rng):
    span = rng.choice([0, 3, 10, 60, 10**5])
    p, t = times(rng, rng.size(14), span), times(rng, rng.size(14), span)
    if rng.maybe(0.3) and p:
        t = sorted(t + [rng.choice(p) for _ in range(rng.randint(1, 3))])
    if rng.maybe(0.3):
        b = rng.randint(0, 100)
        t = [x % (10**6) + b for x in t]
        p = [x % (10**6) + b for x in p]
        t.sort(), p.sort()
    note(pulses=p, triggers=t)
    pa, ta = np.array(p, dtype=np.int64), np.array(t, dtype=np.int64)
    r = nearest_arrivals(pa, ta)
    check(isinstance(r, tuple) and len(r) == 2, "a pair of arrays is returned", got=type(r))
    el, en = oracle(p, t)
    same(r[0], el, "delay after last trigger")
    same(r[1], en, "delay until next trigger")
    check(list(pa) == p and list(ta) == t, "inputs unchanged")


# ---------------------------------------------------------------- OFF channel groups and TESGroups
import os, contextlib, io
import mass, h5py
import mass.off
from mkdata import write_ljh, write_off, off_records


def ext_file(path, t, head=b"# external trigger subframe counts (nrow=8)\n"):
    with open(path, "wb") as f:
        f.write(head)
        np.asarray(t, dtype="<i8").tofile(f)


@trial(weight=1.5, min_runs=4)
def off_group_timing(rng):
    d = tmpdir()
    div = rng.choice([None, 1, 3, 64])
    nrow = rng.choice([1, 4, 8])
    ro = {"ColumnNum": 0, "RowNum": 0, "NumberOfColumns": 1, "NumberOfRows": nrow, "NumberOfChans": 4}
    if div:
        ro["SubframeDivisions"] = div
    base = os.path.join(d, "20200101_run0001")
    recs, n = {}, rng.size(8, empty=False)
    for ch in (1, 3):
        fc = np.array(times(rng, n, 40), dtype=np.int64) % (1 << 30)
        fc.sort()
        recs[ch] = off_records(rng, n, 3, fc=fc)
        write_off(f"{base}_chan{ch}.off", 3, recs[ch], readout=ro, frame=1e-5)
    nd = div or nrow
    t = np.array(sorted(int(x) * nd + rng.randint(-2 * nd, 2 * nd) for x in rng.choices(list(recs[1]["framecount"]), k=rng.size(6))), dtype=np.int64)
    ext_file(base + "_external_trigger.bin", t)
    with open(base + "_experiment_state.txt", "w") as f:
        f.write("# unixnano, state label\n0, START\n")
    note(triggers=t.tolist(), framecounts={k: v["framecount"].tolist() for k, v in recs.items()}, divisions=div, rows=nrow)
    data = mass.off.ChannelGroup([f"{base}_chan1.off", f"{base}_chan3.off"], verbose=False)
    data.calcExternalTriggerTiming(after_last=True, until_next=True, from_nearest=True)
    for ch in (1, 3):
        ds = data[ch]
        p = recs[ch]["framecount"] * nd
        el, en = oracle([int(x) for x in p], [int(x) for x in t])
        same(ds.subframes_after_last_external_trigger, el, f"chan {ch} after last")
        same(ds.subframes_until_next_external_trigger, en, f"chan {ch} until next")
        same(ds.subframes_from_nearest_external_trigger, np.minimum(el, en), f"chan {ch} nearest")
        same(ds.seconds_after_last_external_trigger, el * (1e-5 / nd), "seconds after last", rtol=1e-12)
        same(ds.seconds_until_next_external_trigger, en * (1e-5 / nd), "seconds until next", rtol=1e-12)
        same(ds.seconds_from_nearest_external_trigger, np.minimum(el, en) * (1e-5 / nd), "seconds from nearest", rtol=1e-12)


@trial(weight=1.5, min_runs=4)
def tes_group_timing(rng):
    d = tmpdir()
    n = rng.size(8, empty=False)
    div = rng.choice([None, 1, 8, 64])
    nrow = rng.choice([1, 4, 8])
    base = os.path.join(d, "run0001")
    extra = [f"Number of rows: {nrow}", "Number of columns: 1", "Row number (from 0-31 inclusive): 0"]
    if div:
        extra += [f"Subframe divisions: {div}", "Subframe offset: 0"]
    sf = {}
    for ch in (1, 3):
        sf[ch] = np.array(times(rng, n, 200), dtype=np.int64)
        g = rng.np.integers(0, 50, (n, 20)) + 1000
        g[:, 8:] += 500
        write_ljh(f"{base}_chan{ch}.ljh", g, sf[ch], sf[ch] * 10, presamples=8, extra=extra)
    t = np.array(times(rng, rng.size(8), 200), dtype=np.int64)
    hd = None
    if rng.maybe():
        with h5py.File(base + "_external_trig.hdf5", "w") as h:
            h["trig_times_w_offsets"] = t
    else:
        hd = rng.choice([None, 16])
        ext_file(base + "_external_trigger.bin", t, b"# external trigger (nrow=%d)\n" % hd if hd else b"# external trigger subframe counts\n")
    note(triggers=t.tolist(), subframes={k: v.tolist() for k, v in sf.items()})
    with contextlib.redirect_stdout(io.StringIO()):
        g = mass.TESGroup([f"{base}_chan1.ljh", f"{base}_chan3.ljh"])
        g.summarize_data(forceNew=True)
    g.calc_external_trigger_timing(forceNew=rng.maybe())
    check(g.why_chan_bad == {} or all(not v for v in g.why_chan_bad.values()), "no channel was marked bad", why=g.why_chan_bad)
    nd = hd or div or nrow
    same(g.external_trigger_subframe_as_seconds, t / float(nd) * 1.024e-05, "trigger times in seconds", rtol=1e-12)
    for ds in g:
        el, en = oracle([int(x) for x in sf[ds.channum]], [int(x) for x in t])
        same(ds.subframes_after_last_external_trigger[:], el, f"chan {ds.channum} after last")
        same(ds.subframes_until_next_external_trigger[:], en, f"chan {ds.channum} until next")
        same(ds.subframes_from_nearest_external_trigger[:], np.minimum(el, en), f"chan {ds.channum} nearest")
    g.hdf5_file.close()
