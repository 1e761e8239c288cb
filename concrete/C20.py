import os, logging
import numpy as np, h5py
import mass
from lib import *
from mktes import *
from mkdata import write_ljh
from mass.core.channel import GroupLooper, _add_group_loop
from mass.off.util import GroupLooper as OffLooper, add_group_loop

logging.disable(logging.CRITICAL)
CALLS = []


class Boom(Exception):
    pass


def verif_op(ds, fail, msg="boom", also=None):
    """probe"""
    CALLS.append(ds.channum)
    if also is not None and ds.channum in also:
        ds.tes_group.set_chan_bad(also[ds.channum], "neighbour") if hasattr(ds, "tes_group") else None
    if ds.channum in fail:
        raise Boom(msg)
    return ds.channum * 2


_add_group_loop()(verif_op)
add_group_loop(verif_op)


def arg(rng, chans):
    """the channels as set_chan_* arguments: numbers and containers"""
    chans = list(chans)
    out = []
    while chans:
        k = rng.randint(1, len(chans))
        part, chans = chans[:k], chans[k:]
        out.append(part[0] if k == 1 and rng.maybe() else rng.choice([list, tuple, set, np.array])(part))
    return out


def compare(g, all_, why, path, noise_only=False):
    good = [c for c in all_ if c not in why]
    check([d.channum for d in g] == good, "iteration visits the good channels in order", got=[d.channum for d in g], want=good)
    check([d.channum for d in g.iter_channels()] == good and list(g.iter_channel_numbers()) == good and g.good_channels == good and g.num_good_channels == len(good), "iterators over good channels")
    check([d.channum for d in g.iter_channels(include_badchan=True)] == all_ and list(g.iter_channel_numbers(include_badchan=True)) == all_, "including bad channels: all in order")
    check(g.why_chan_bad == why, "reasons", got=g.why_chan_bad, want=why)
    for c in all_:
        a = g.hdf5_file[f"chan{c}"].attrs
        got = [x.decode() for x in a["why_bad"]] if "why_bad" in a else None
        check(got == why.get(c), "reasons in the file", channel=c, got=got, want=why.get(c))
    if good:
        check(g.first_good_dataset.channum == good[0], "first good data set")
    else:
        check(raises(IndexError, lambda: g.first_good_dataset), "no good data set")


REASONS = ["noisy", "too few pulses", "\u00b5 meson", "a" * 300, "x\ny", "", "r1"]


@trial(weight=3, min_runs=12)
def history(rng):
    all_ = sorted(rng.sample([1, 2, 3, 5, 8, 13, 101], rng.randint(1, 4)))
    d = tmpdir()
    noise_only = rng.maybe(0.2)
    h5 = os.path.join(d, "x_mass.hdf5")
    if noise_only:
        fs = []
        for c in all_:
            f = os.path.join(d, f"n_chan{c}.noi")
            write_ljh(f, np.rint(1000 + rng.np.normal(0, 4, (3, 16))).astype(np.uint16), presamples=4)
            fs.append(f)
        with quiet():
            g = mass.TESGroup(fs, noise_only=True, hdf5_noisefilename=h5)
        mk = lambda: mass.TESGroup(fs, noise_only=True, hdf5_noisefilename=h5)
    else:
        g = tes(rng, chans=all_, n=4, summarize=False, d=d, hdf5_filename=h5)
        fs = list(g.filenames)
        mk = lambda: mass.TESGroup(fs, hdf5_filename=h5)
    why, log = {}, []
    note(channels=all_, noise_only=noise_only, history=log)
    for _ in range(rng.randint(1, 9)):
        op = rng.choice(["bad", "bad", "bad", "good", "allgood", "loop", "loop", "reopen", "tamper"])
        sub = rng.sample(all_, rng.randint(1, len(all_)))
        if op == "bad":
            a, cm = arg(rng, sub), [rng.choice(REASONS) for _ in range(rng.choice([1, 1, 1, 0, 2]))]
            if any(x == "" for x in cm):
                cm = ["r"]
            a = a + cm if rng.maybe(0.8) else cm + a
            log.append(["set_chan_bad", repr(a)])
            g.set_chan_bad(*a)
            for c in set(sub):
                why[c] = why.get(c, []) + [cm[-1] if cm else ""]
        elif op == "good":
            a = arg(rng, sub)
            log.append(["set_chan_good", repr(a)])
            g.set_chan_good(*a)
            for c in sub:
                why.pop(c, None)
        elif op == "allgood":
            log.append(["set_all_chan_good"])
            g.set_all_chan_good()
            why = {}
        elif op == "loop" and not noise_only:
            msg = rng.choice(["boom", "d\u00e9j\u00e0 vu", "x" * 2000, "line1\nline2"])
            good = [c for c in all_ if c not in why]
            log.append(["loop failing on", sub, msg[:20]])
            CALLS.clear()
            g.verif_op(set(sub), msg, _rethrow=False)
            check(CALLS == good, "the operation runs once on every good channel, also after failures", got=list(CALLS), want=good)
            for c in good:
                if c in sub:
                    w = g.why_chan_bad.get(c)
                    check(w is not None and len(w) == 1 and "verif_op" in w[0] and msg in w[0], "failing channel is marked with method and error", channel=c, why=w)
                    why[c] = w
        elif op == "reopen":
            log.append(["reopen"])
            g.hdf5_file.close()
            if not noise_only and g.hdf5_noisefile is not None:
                g.hdf5_noisefile.close()
            with quiet():
                g = mk()
        elif op == "tamper":
            w = g.why_chan_bad
            w[all_[0]] = ["no"]
        compare(g, all_, why, h5)
    g.hdf5_file.close()


def views(g):
    return list(g), g.keys(), [d.channum for d in g.values()], [k for k, _ in g.items()]


@trial(weight=2, min_runs=12)
def off_history(rng):
    all_ = sorted(rng.sample([1, 2, 3, 5, 8, 13], rng.randint(1, 4)))
    g, _ = offgroup(rng, chans=all_, n=4)
    why, log = {}, []
    note(channels=all_, history=log)

    def ok(inc, tag=""):
        want = all_ if inc else [c for c in all_ if c not in why]
        check(all(v == want for v in views(g)) and len(g) == len(want), "iteration " + tag, got=views(g), want=want)
        check(dict(g.whyChanBad) == why and list(g.whyChanBad) == [c for c in all_ if c in why], "reasons " + tag, got=dict(g.whyChanBad), want=why)
    for _ in range(rng.randint(1, 8)):
        op = rng.choice(["bad", "bad", "good", "allgood", "loop", "include", "nested", "error"])
        c = rng.choice(all_)
        log.append([op, c])
        if op == "bad":
            why[c] = rng.choice(["noisy", "\u00b5", "r2"])
            g[c].markBad(why[c], extraInfo=rng.choice([None, 5]))
        elif op == "good":
            g[c].markGood()
            why.pop(c, None)
        elif op == "allgood":
            g.markAllGood()
            why = {}
        elif op == "loop":
            fail = set(rng.sample(all_, rng.randint(0, len(all_))))
            good = [x for x in all_ if x not in why]
            CALLS.clear()
            if rng.maybe():
                r = g.verif_op(fail, _rethrow=False)
            else:
                with g.includeBad():
                    good = all_
                    r = g.verif_op(fail, _rethrow=False)
                    CALLS2 = list(CALLS)
            check(CALLS == good, "the operation runs once on every channel iterated, also after failures", got=list(CALLS), want=good)
            check(dict(r) == {x: 2 * x for x in good if x not in fail}, "results of the channels that did not fail", got=dict(r))
            for x in good:
                if x in fail:
                    w = g.whyChanBad.get(x)
                    check(w is not None and "verif_op" in w and "boom" in w, "failing channel is marked", channel=x, why=w)
                    why[x] = w
        elif op == "include":
            with g.includeBad():
                ok(True, "including bad")
        elif op == "nested":
            with g.includeBad():
                with g.includeBad(False):
                    ok(False, "nested")
                ok(True, "after nested use")
        elif op == "error":
            try:
                with g.includeBad():
                    raise KeyError
            except KeyError:
                pass
        ok(False)
    if len(why) < len(all_):
        check(g.firstGoodChannel().channum == [x for x in all_ if x not in why][0], "first good channel")
