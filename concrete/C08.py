import os
import numpy as np
import mass, mass.off
from lib import *
from mktes import tes, quiet
from mkdata import write_off, off_records, write_ljh
from mktes import pulses

LABELS = ["START", "A", "B", "A2", "IGNORE", "PAUSE", "STOP", "C"]
AUTO = ["START", "STOP", "END", "IGNORE"]


def excluded(labels, given):
    if given != "auto":
        return given
    return AUTO if set(labels) - set(AUTO) else ["IGNORE"]


def scenario(rng, nl=None):
    nl = rng.choice([1, 2, 3, 5, 8]) if nl is None else nl
    labels = [rng.choice(LABELS if rng.maybe(0.5) else ["A", "B", "START"]) for _ in range(nl)]
    base = rng.choice([0, 10**15, 1_500_000_000_000_000_000])
    times = sorted(base + rng.randint(0, rng.choice([20, 400, 10**9])) for _ in range(nl))
    n = rng.choice([0, 1, 3, 12, 40])
    recs = []
    for _ in range(n):
        t = rng.choice(times) + rng.choice([-1, 0, 1]) if rng.maybe(0.4) else rng.randint(times[0] - 5, times[-1] + 30)
        recs.append(max(t, 0))
    recs.sort()
    exc = rng.choice(["auto", "auto", [], ["A"], ["START", "STOP"], ["A", "B"]])
    alias = {}
    if rng.maybe(0.4):
        alias = {rng.choice(["A", "B", "C"]): rng.choice(["ren", "B", "X"])}
    return labels, times, recs, exc, alias


def owner(labels, times, t, exc, alias):
    k = sum(1 for x in times if x <= t) - 1
    if k < 0 or labels[k] in exc:
        return None
    return alias.get(labels[k], labels[k])


def compare(d, recs, labels, times, exc, alias, what):
    want = {}
    for i, t in enumerate(recs):
        o = owner(labels, times, t, exc, alias)
        if o is not None:
            want.setdefault(o, []).append(i)
    used = {alias.get(x, x) for x in labels if x not in exc}
    check(set(want) <= set(d) <= used, f"{what}: labels", got=list(d), want=sorted(used))
    for k, v in d.items():
        sl = v if isinstance(v, list) else [v]
        got = [i for s in sl for i in range(s.start, s.stop)]
        check(got == want.get(k, []), f"{what}: records of state {k}", got=got, want=want.get(k, []), slices=str(sl))


def statefile(path, labels, times, mode="w"):
    with open(path, mode, encoding="utf-8") as f:
        if mode == "w":
            f.write("# unixnano, state label\n")
        for t, l in zip(times, labels):
            f.write(f"{t}, {l}\n")


def setalias(esf, alias):
    for a, b in alias.items():
        esf.aliasState(a, b)


@trial(weight=3)
def once_and_in_steps(rng):
    labels, times, recs, exc, alias = scenario(rng)
    note(labels=labels, times=times, records=recs[:40], exclude=exc, alias=alias)
    p = os.path.join(tmpdir(), "x_experiment_state.txt")
    statefile(p, labels, times)
    mk = lambda: mass.off.ExperimentStateFile(filename=p, excludeStates=exc if exc == "auto" else list(exc))
    e = mk()
    setalias(e, alias)
    ex = excluded(labels, exc)
    same(np.asarray(e.unixnanos), np.array(times), "state times")
    check(e.allLabels == labels, "labels read", got=e.allLabels)
    check(e.unaliasedLabels == list(dict.fromkeys(x for x in labels if x not in ex)), "labels not excluded", got=e.unaliasedLabels, excluded=ex)
    compare(e.calcStatesDict(np.array(recs, dtype=np.int64)), recs, labels, times, ex, alias, "all at once")
    if exc == "auto":
        return
    # in steps: every step reads the state changes up to some time, then the records up to that time
    cuts = sorted(rng.randint(times[0], times[-1] + 30) for _ in range(rng.randint(1, 4))) + [times[-1] + 10**10]
    p2 = os.path.join(tmpdir(), "y_experiment_state.txt")
    i = max(sum(1 for t in times if t <= cuts[0]), 1)
    statefile(p2, labels[:i], times[:i])
    e = mass.off.ExperimentStateFile(filename=p2, excludeStates=list(exc))
    setalias(e, alias)
    j = sum(1 for t in recs if t <= cuts[0])
    d = e.calcStatesDict(np.array(recs[:j], dtype=np.int64))
    for c in cuts[1:]:
        i2, j2 = max(sum(1 for t in times if t <= c), i), sum(1 for t in recs if t <= c)
        statefile(p2, labels[i:i2], times[i:i2], "a")
        i0 = len(e.allLabels)
        e.parse()
        check(i0 == i, "labels so far", got=i0, want=i)
        d = e.calcStatesDict(np.array(recs[j:j2], dtype=np.int64), d, i0, j)
        i, j = i2, j2
        compare(d, recs[:j], labels[:i], times[:i], exc, alias, f"after the step up to {c}")


@trial(weight=3)
def live_group(rng):
    labels, times, recs, exc, alias = scenario(rng, rng.choice([2, 3, 5, 8]))
    if not recs:
        recs = [times[0]]
    note(labels=labels, times=times, records=recs[:40], exclude=exc, alias=alias)
    d = tmpdir()
    sp = os.path.join(d, "20200101_run0001_experiment_state.txt")
    chans = [1, 3]
    blob, size, head, uns = {}, {}, {}, {}
    for ch in chans:
        # channels may miss records
        u = recs if ch == 1 else [t for t in recs if rng.maybe(0.7)] or recs[:1]
        uns[ch] = u
        r = off_records(rng, len(u), 3)
        r["unixnano"] = np.array(u, dtype=np.int64)
        f = os.path.join(d, f"20200101_run0001_chan{ch}.off")
        write_off(f, 3, {k: v[:0] for k, v in r.items()})
        head[ch] = os.path.getsize(f)
        write_off(f, 3, r)
        blob[ch] = open(f, "rb").read()
        size[ch] = (len(blob[ch]) - head[ch]) // len(u)
    i = rng.randint(1, len(labels))
    nrec = {ch: rng.randint(1, len(uns[ch])) for ch in chans}

    def put():
        for ch in chans:
            with open(os.path.join(d, f"20200101_run0001_chan{ch}.off"), "r+b") as f:
                f.truncate(0)
                f.write(blob[ch][:head[ch] + nrec[ch] * size[ch]])
    statefile(sp, labels[:i], times[:i])
    for ch in chans:
        with open(os.path.join(d, f"20200101_run0001_chan{ch}.off"), "wb") as f:
            f.write(blob[ch][:head[ch] + nrec[ch] * size[ch]])
    with quiet():
        g = mass.off.ChannelGroup([os.path.join(d, f"20200101_run0001_chan{ch}.off") for ch in chans], verbose=False,
                                  excludeStates=exc if exc == "auto" else list(exc))
    setalias(g.experimentStateFile, alias)
    for step in range(rng.randint(1, 4)):
        if step:
            i2 = rng.randint(i, len(labels)) if step < 3 else len(labels)
            statefile(sp, labels[i:i2], times[i:i2], "a")
            i = i2
            for ch in chans:
                k = rng.randint(nrec[ch], len(uns[ch]))
                with open(os.path.join(d, f"20200101_run0001_chan{ch}.off"), "ab") as f:
                    f.write(blob[ch][head[ch] + nrec[ch] * size[ch]:head[ch] + k * size[ch]])
                nrec[ch] = k
            bad = rng.maybe(0.3)
            known = len(g[3])
            with quiet():
                if bad:
                    g[3].markBad("test")
                _, new = g.refreshFromFiles()
                if bad:
                    check(list(new) == [1], "only good channels refreshed", got=list(new))
                    g[3].markGood()
                    if rng.maybe(0.5):
                        # used before its file is read again
                        u = uns[3][:known]
                        compare(g[3].statesDict, u, labels[:i], times[:i], excluded(labels[:i], exc), alias, f"step {step} channel good again")
                    g.refreshFromFiles()
        for ch in chans:
            if rng.maybe(0.3):
                continue        # states of this channel not asked for now
            u = uns[ch][:nrec[ch]]
            check(len(g[ch]) == nrec[ch], "records read", ch=ch, got=len(g[ch]), want=nrec[ch])
            compare(g[ch].statesDict, u, labels[:i], times[:i], excluded(labels[:i], exc), alias, f"step {step} channel {ch}")
            for k in list(g[ch].statesDict)[:3]:
                want = [t for t in u if owner(labels[:i], times[:i], t, excluded(labels[:i], exc), alias) == k]
                same(np.asarray(g[ch].getAttr("unixnano", g[ch].getStatesIndicies(k))), np.array(want, dtype=np.int64), f"times of the records of {k}")


@trial(weight=1)
def tes_group(rng):
    labels = [rng.choice(["START", "A", "B", "C", "IGNORE"]) for _ in range(rng.choice([1, 2, 4, 6]))]
    n = rng.choice([3, 8, 15])
    ts = np.sort(rng.np.choice(1000, n, replace=False)) * 10**6 + 10**15     # microseconds
    times = sorted(int(10**18 + rng.randint(0, 1000) * 10**9 + 5 * 10**8) for _ in labels)
    note(labels=labels, times=times, records=ts.tolist())
    d = tmpdir()
    f = os.path.join(d, "run0001_chan1.ljh")
    write_ljh(f, pulses(rng.np, n, 24, 8), np.arange(n), ts, presamples=8)
    statefile(os.path.join(d, "run0001_experiment_state.txt"), labels, times)
    with quiet():
        g = mass.TESGroup([f])
        g.summarize_data(forceNew=True)
    ds = g.channel[1]
    ex = excluded(labels, "auto")
    own = [owner(labels, times, int(t) * 1000, ex, {}) for t in ts]
    for k in dict.fromkeys(x for x in labels if x not in ex):
        same(np.asarray(ds.good(state=k)), np.array([o == k for o in own]), f"records in state {k}")
    same(np.asarray(ds.good(state="uncategorized")), np.array([o is None for o in own]), "records in no state")
