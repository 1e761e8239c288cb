"""small TESGroups and OFF ChannelGroups over real files"""
import os, contextlib, io
import numpy as np
import mass, mass.off
from lib import tmpdir
from mkdata import write_ljh, write_off, off_records


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def pulses(g, n, ns, pre, base=1000):
    t = np.arange(ns) - pre
    shape = np.where(t >= 0, np.exp(-t / 6.0) - np.exp(-(t + 0.5) / 1.5), 0)
    amp = g.uniform(500, 5000, n)
    return np.clip(np.rint(base + g.normal(0, 3, (n, ns)) + amp[:, None] * shape), 0, 65535).astype(np.uint16)


def tes(rng, chans=(1, 3), n=8, ns=24, pre=8, noise=False, summarize=True, data=None, d=None, extra=(), tail=b"", **kw):
    d = d or tmpdir()
    fs, nf = [], []
    for ch in chans:
        k = n[ch] if isinstance(n, dict) else n
        f = os.path.join(d, f"run0001_chan{ch}.ljh")
        dat = pulses(rng.np, k, ns, pre) if data is None else data[ch]
        sf = np.sort(rng.np.integers(0, 10**6, len(dat)))
        write_ljh(f, dat, sf, 10**15 + sf * 10, presamples=pre, extra=extra, tail=tail)
        fs.append(f)
        if noise:
            os.makedirs(os.path.join(d, "noise"), exist_ok=True)
            q = os.path.join(d, "noise", f"run0001_chan{ch}.ljh")
            write_ljh(q, np.rint(1000 + rng.np.normal(0, 4, (20, ns))).astype(np.uint16), np.arange(20), np.arange(20) * 10, presamples=pre, extra=extra)
            nf.append(q)
    with quiet():
        g = mass.TESGroup(fs, nf if noise else None, **kw)
        if summarize:
            g.summarize_data(forceNew=True)
    return g


def offgroup(rng, chans=(1, 3), n=8, nbasis=3, states=("START",), d=None, recs=None, fc=None):
    """-> (ChannelGroup, records per channel); states at equal spacings of the unixnano range"""
    d = d or tmpdir()
    recs = recs or {}
    fs = []
    for ch in chans:
        if ch not in recs:
            recs[ch] = off_records(rng, n[ch] if isinstance(n, dict) else n, nbasis, fc=fc)
        f = os.path.join(d, f"20200101_run0001_chan{ch}.off")
        write_off(f, nbasis, recs[ch])
        fs.append(f)
    lo = 1_500_000_000_000_000_000
    with open(os.path.join(d, "20200101_run0001_experiment_state.txt"), "w") as f:
        f.write("# unixnano, state label\n")
        for i, s in enumerate(states):
            f.write(f"{lo + (i * 10**10) // len(states)}, {s}\n")
    return mass.off.ChannelGroup(fs, verbose=False), recs
