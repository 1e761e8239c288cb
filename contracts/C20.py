"""Bad-channel bookkeeping: every operation as a transition from an arbitrary coherent state of a three-channel group
(each channel good, or bad with an unknown list of earlier reasons)."""
import collections
import logging
import sys
from pyvc import *
from loader import Loader
from harness import Harness

CG = "mass/core/channel_group.py:"
LOAD = Loader()
logging.disable(logging.CRITICAL)
CHANS = (1, 3, 7)
B3 = "three channels; reason lists of any length are represented by an opaque earlier part plus what is appended"


class Attrs(dict): pass


class Grp:
    def __init__(self): self.attrs = Attrs()


class DS:
    def __init__(self, ch): self.channum = ch


def group(c):
    L = LOAD
    m = L.load("mass.core.channel_group")

    class G(m.TESGroup):
        def __init__(self): pass
    g = G()
    g.datasets = tuple(DS(ch) for ch in CHANS)
    g.n_channels = len(CHANS)
    g.hdf5_file = {f"chan{ch}": Grp() for ch in CHANS}
    g._bad_channums = {}
    for ch in CHANS:
        if c.choose(f"{ch} bad before"):
            g._bad_channums[ch] = ["earlier reasons of %d" % ch]
            g.hdf5_file[f"chan{ch}"].attrs["why_bad"] = [r.encode() for r in g._bad_channums[ch]]
    return m, g, {k: list(v) for k, v in g._bad_channums.items()}


def as_text(v):
    out = []
    for x in v:
        out.append(x.decode() if isinstance(x, bytes) else str(x))
    return out


def coherent(c, g, want, tag=""):
    c.ensure("bad channels and their reasons" + tag, dict(g._bad_channums) == want and dict(g.why_chan_bad) == want)
    ok = True
    for ch in CHANS:
        a = g.hdf5_file[f"chan{ch}"].attrs
        if ch in want:
            ok = ok and "why_bad" in a and as_text(a["why_bad"]) == want[ch]
        else:
            ok = ok and "why_bad" not in a
    c.ensure("the file says the same" + tag, ok)
    good = [ch for ch in CHANS if ch not in want]
    c.ensure("iteration visits the good channels in order" + tag, [d.channum for d in g] == good and [d.channum for d in g.iter_channels()] == good and list(g.iter_channel_numbers()) == good and list(g.good_channels) == good and g.num_good_channels == len(good) and g.n_good_channels() == len(good))
    c.ensure("including bad: all channels in order" + tag, [d.channum for d in g.iter_channels(include_badchan=True)] == list(CHANS) and list(g.iter_channel_numbers(True)) == list(CHANS))
    if good:
        c.ensure("first good data set" + tag, g.first_good_dataset.channum == good[0])
    else:
        try:
            g.first_good_dataset
            c.ensure("no good data set" + tag, False)
        except IndexError:
            c.ensure("no good data set" + tag, True)


SHAPES = [((1,), {1}), ((3, 7), {3, 7}), (([1, 7],), {1, 7}), ((1, (3,)), {1, 3}), (({7}, 7), {7}), ((range(3, 4),), {3})]


def pick(c, xs):
    for i, x in enumerate(xs[:-1]):
        if c.choose(f"shape {i}"):
            return x
    return xs[-1]


def h_bad(c):
    m, g, old = group(c)
    args, chans = pick(c, SHAPES)
    cm = []
    if c.choose("a reason"):
        cm.append("first reason \u00b5")
        if c.choose("a second reason"):
            cm.append("last reason")
    why = cm[-1] if cm else ""
    g.set_chan_bad(*(list(args) + cm if not c.choose("reason in front") else cm + list(args)))
    want = {k: list(v) for k, v in old.items()}
    for ch in chans:
        want[ch] = want.get(ch, []) + [why]
    coherent(c, g, want)
    c.cover("end")


def h_good(c):
    m, g, old = group(c)
    if c.choose("all"):
        chans = set(CHANS)
        g.set_all_chan_good()
    else:
        args, chans = pick(c, SHAPES)
        g.set_chan_good(*args)
    coherent(c, g, {k: v for k, v in old.items() if k not in chans})
    c.cover("end")


def h_copy(c):
    m, g, old = group(c)
    w = g.why_chan_bad
    w[1] = ["tampered"]
    w.pop(3, None)
    coherent(c, g, old, " (the answer is a copy)")


class Stop(BaseException): pass


def h_loop(c):
    """a decorated method called for the group: runs once for every good channel, failures mark exactly their channel"""
    L = LOAD
    mc = L.load("mass.core.channel")
    m, g, old = group(c)
    fails = {ch: c.choose(f"{ch} fails") for ch in CHANS}
    ran = []

    class Boom(Exception): pass

    def do_thing(ds, a, b=2):
        """text"""
        ran.append((ds.channum, a, b))
        if fails[ds.channum]:
            raise Boom("trouble \u00b5 in %d" % ds.channum)
        return "x"

    class Looper(mc.GroupLooper): pass
    mc._add_group_loop()(do_thing)
    f = getattr(mc.GroupLooper, "do_thing")
    f(g, 5, b=6, _rethrow=False)
    good = [ch for ch in CHANS if ch not in old]
    c.ensure("every good channel is processed once, with the arguments given", ran == [(ch, 5, 6) for ch in good])
    c.ensure("exactly the failing channels become bad", set(g._bad_channums) == set(old) | {ch for ch in good if fails[ch]})
    ok = all(g._bad_channums[ch] == old[ch] for ch in old)
    c.ensure("reasons of channels that were bad are untouched", ok)
    c.ensure("the reason names method and error", all(len(g._bad_channums[ch]) == 1 and "do_thing" in str(g._bad_channums[ch][0]) and "trouble" in str(g._bad_channums[ch][0]) for ch in good if fails[ch]))
    ok = True
    for ch in CHANS:
        a = g.hdf5_file[f"chan{ch}"].attrs
        ok = ok and ((as_text(a["why_bad"]) == g._bad_channums[ch]) if ch in g._bad_channums else "why_bad" not in a)
    c.ensure("the file says the same", ok)
    c.cover("end")


def h_loop_rethrow(c):
    L = LOAD
    mc = L.load("mass.core.channel")
    m, g, old = group(c)
    good = [ch for ch in CHANS if ch not in old]
    kb = c.choose("interrupt")

    def do_thing(ds):
        raise KeyboardInterrupt() if kb else ValueError("no")
    mc._add_group_loop()(do_thing)
    try:
        getattr(mc.GroupLooper, "do_thing")(g, _rethrow=not kb)
        c.ensure("no channel, no error", not good)
    except (KeyboardInterrupt, ValueError) as e:
        c.ensure("the error reaches the caller", bool(good) and isinstance(e, KeyboardInterrupt) == kb)
    if kb:
        c.ensure("an interrupt marks nothing", dict(g._bad_channums) == old)


# ------------------------------------------------------------------ off
def offgroup(c):
    L = LOAD
    m = L.load("mass.off.channels")

    class Ch(m.Channel):
        def __init__(self, ch):
            self.channum, self.verbose, self.shortName = ch, False, f"chan{ch}"
            self.markedBadBool, self.markedBadReason, self.markedBadExtraInfo = False, None, None
            self._default_cut_recipe_name = None
        shortName = None
    tmp = Ch(0)
    g = m.ChannelGroupFromNpArrays([Ch(ch) for ch in CHANS], "short", verbose=False)
    g.offFileNames = ["f"] * len(CHANS)
    why = {}
    for ch in CHANS:
        if c.choose(f"{ch} bad before"):
            collections.OrderedDict.__getitem__(g, ch).markBad(f"reason {ch}")
            why[ch] = f"reason {ch}"
    return L, m, g, why


def visits(g):
    return list(g), list(g.keys()), [d.channum for d in g.values()], [k for k, _ in g.items()], len(g)


def h_offiter(c):
    L, m, g, why = offgroup(c)
    good = [ch for ch in CHANS if ch not in why]
    V = lambda l: (l, l, l, l, len(l))
    c.ensure("iteration visits the good channels in order", visits(g) == V(good))
    c.ensure("reasons", dict(g.whyChanBad) == why)
    c.ensure("asking for the reasons changes nothing", visits(g) == V(good))
    with g.includeBad():
        c.ensure("including bad: all channels in order", visits(g) == V(list(CHANS)))
        c.ensure("reasons inside", dict(g.whyChanBad) == why)
        c.ensure("still including bad after asking", visits(g) == V(list(CHANS)))
        with g.includeBad(False):
            c.ensure("nested exclusion", visits(g) == V(good))
        c.ensure("back to including", visits(g) == V(list(CHANS)))
    c.ensure("back to excluding", visits(g) == V(good))
    try:
        with g.includeBad():
            raise ValueError()
    except ValueError:
        pass
    c.ensure("back to excluding after an error", visits(g) == V(good))
    if good:
        c.ensure("first good channel", g.firstGoodChannel().channum == good[0])
    op = c.choose("mark 3 bad")
    d3 = collections.OrderedDict.__getitem__(g, 3)
    if op:
        d3.markBad("again")
        why[3] = "again"
    elif c.choose("mark 3 good"):
        d3.markGood()
        why.pop(3, None)
    elif c.choose("mark all good"):
        g.markAllGood()
        why = {}
    good = [ch for ch in CHANS if ch not in why]
    c.ensure("iteration follows the marks", visits(g) == V(good))
    c.ensure("reasons follow the marks", dict(g.whyChanBad) == why)
    c.cover("end")


def h_offloop(c):
    L, m, g, why = offgroup(c)
    u = L.load("mass.off.util")
    fails = {ch: c.choose(f"{ch} fails") for ch in CHANS}
    ran = []

    def do_thing(ds, a, b=2):
        """text"""
        ran.append((ds.channum, a, b))
        if fails[ds.channum]:
            raise ValueError("trouble in %d" % ds.channum)
        return ds.channum * 10
    u.add_group_loop(do_thing)
    good = [ch for ch in CHANS if ch not in why]
    rv = getattr(u.GroupLooper, "do_thing")(g, 5, b=6, _rethrow=False)
    c.ensure("every good channel is processed once, with the arguments given", ran == [(ch, 5, 6) for ch in good])
    c.ensure("results of the channels that did not fail", dict(rv) == {ch: ch * 10 for ch in good if not fails[ch]})
    w = dict(g.whyChanBad)
    c.ensure("exactly the failing channels become bad", set(w) == set(why) | {ch for ch in good if fails[ch]})
    c.ensure("the reason names method and error; earlier reasons stay", all((w[ch] == why[ch]) if ch in why else ("do_thing" in w[ch] and "trouble" in w[ch]) for ch in w))
    c.cover("end")


HARNESSES = [
    Harness("set_chan_bad", h_bad, functions=[CG + "TESGroup.set_chan_bad", CG + "TESGroup.iter_channels", CG + "TESGroup.good_channels", CG + "TESGroup.first_good_dataset"], bounded=B3),
    Harness("set_chan_good", h_good, functions=[CG + "TESGroup.set_chan_good", CG + "TESGroup.set_all_chan_good"], bounded=B3),
    Harness("why_chan_bad", h_copy, functions=[CG + "TESGroup.why_chan_bad"], bounded=B3),
    Harness("group loop", h_loop, functions=["mass/core/channel.py:_add_group_loop"], bounded=B3),
    Harness("group loop, errors passed on", h_loop_rethrow, functions=["mass/core/channel.py:_add_group_loop"], bounded=B3),
    Harness("ChannelGroup iteration", h_offiter, functions=["mass/off/channels.py:ChannelGroup.__iter__", "mass/off/channels.py:ChannelGroup.includeBad", "mass/off/channels.py:ChannelGroup.__exit__", "mass/off/channels.py:ChannelGroup.whyChanBad", "mass/off/channels.py:Channel.markBad", "mass/off/channels.py:Channel.markGood"], bounded=B3),
    Harness("OFF group loop", h_offloop, functions=["mass/off/util.py:add_group_loop"], bounded=B3),
]
