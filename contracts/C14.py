import numpy as rnp
from pyvc import *
from symnp import fresh, SArr
from loader import Loader
from harness import Harness

MAX = rnp.iinfo(rnp.int64).max


def rank_fn(c, P, T, np_, nt):
    """ghost R(k) = number of triggers <= P[k]"""
    R = z3.Function(c.fname("R"), z3.IntSort(), z3.IntSort())
    r = lambda k: SNum(R(num(k).e))
    c.axiom(forall(lambda k: Implies(And(k >= 0, k < np_), And(r(k) >= 0, r(k) <= nt)), pats=lambda k: r(k)))
    c.axiom(forall(lambda k, m: Implies(And(k >= 0, k < np_, m >= 0, m < nt), Iff(m < r(k), T.at(m) <= P.at(k))),
                   n=2, pats=lambda k, m: (r(k), T.at(m))))
    return r


def spec(P, T, R, nt, last, until, k):
    return And(ite(R(k) == 0, last == MAX, last == P.at(k) - T.at(R(k) - 1)),
               ite(R(k) == nt, until == MAX, until == T.at(R(k)) - P.at(k)))


def h_nearest(c):
    m = LOAD.load("mass.core.analysis_algorithms")
    n, nt = c.int("n_pulses", lo=0), c.int("n_trig", lo=0)
    P, T = fresh(c, "P", n, rnp.int64), fresh(c, "T", nt, rnp.int64)
    c.assume(forall(lambda a, b: Implies(And(a >= 0, a <= b, b < n), P.at(a) <= P.at(b)), n=2, pats=lambda a, b: (P.at(a), P.at(b))))
    c.assume(forall(lambda a, b: Implies(And(a >= 0, a <= b, b < nt), T.at(a) <= T.at(b)), n=2, pats=lambda a, b: (T.at(a), T.at(b))))
    R = rank_fn(c, P, T, n, nt)
    c.ghost = (P, T, R, n, nt)
    c.cover("precondition")
    r = m.nearest_arrivals(P, T)
    ok = isinstance(r, tuple) and len(r) == 2
    c.ensure("returns-pair", ok)
    if not ok:
        return
    last, until = r
    c.ensure("length", And(num(last.shape[0]) == n, num(until.shape[0]) == n))
    k = c.int("k")
    c.assume(And(k >= 0, k < n))
    R(k)
    c.ensure("last-and-next-are-nearest", spec(P, T, R, nt, last.at(k), until.at(k), k))
    c.cover("post")


def _done(e, upto):
    c = ctx()
    P, T, R, n, nt = c.ghost
    la, un = e.delay_from_last_trigger, e.delay_until_next_trigger
    return forall(lambda k: Implies(And(k >= 0, k < upto), And(R(k) >= 0, spec(P, T, R, nt, la.at(k), un.at(k), k))), pats=R)


def inv0(e):
    P, T, R, n, nt = ctx().ghost
    return [("i-range", And(e.i >= 0, e.i < n)), ("done", _done(e, e.i))]


def inv1(e):
    P, T, R, n, nt = ctx().ghost
    return [("i-range", And(e.i >= 0, e.i < n)), ("j-range", And(e.j >= 1, e.j < nt)), ("bracket", And(e.a == T.at(e.j - 1), e.b == T.at(e.j))),
            ("lower", e.a <= P.at(e.i)), ("done", _done(e, e.i))]


def inv2(e):
    P, T, R, n, nt = ctx().ghost
    i0 = e._entry.i
    return [("done", _done(e, i0 + e._k))]


def inv3(e):
    P, T, R, n, nt = ctx().ghost
    return [("done", _done(e, e._k))]


LOAD = Loader()
LOADC = Loader()


def contract_nearest(c, calls):
    """callee replaced by its contract (proved by harness nearest_arrivals): some pair of int64 arrays of the pulses' length"""
    def f(p, t):
        n = p.shape[0]
        a, b = fresh(c, "after", n, rnp.int64), fresh(c, "until", n, rnp.int64)
        calls.append((p, t, a, b))
        return a, b
    return f


def h_off(c):
    m = LOADC.load("mass.off.channels")
    LOADC.load("mass.core.analysis_algorithms").nearest_arrivals = contract_nearest(c, calls := [])
    ds = object.__new__(m.Channel)
    n = c.int("n", lo=0)
    fc, trig = fresh(c, "fc", n, rnp.int64), fresh(c, "trig", c.int("nt", lo=0), rnp.int64)
    nrows, period = c.int("nrows", lo=1), c.real("period")
    div = c.int("div", lo=1)
    has = c.choose("SubframeDivisions in header")
    hdr = {"NumberOfRows": nrows}
    if has:
        hdr["SubframeDivisions"] = div

    class Off:
        header = {"ReadoutInfo": hdr}
        framePeriodSeconds = period

        def __getitem__(self, k):
            assert k == "framecount"
            return fc
    ds.offFile = Off()
    ds.markedBadBool = False
    flags = [c.choose(x) for x in ("after", "until", "nearest")]
    m.Channel._calcExternalTriggerTiming(ds, trig, *flags)
    nd = div if has else nrows
    c.ensure("nearest_arrivals called once", len(calls) == 1)
    p, t, a, b = calls[0]
    k = c.int("k")
    c.assume(And(k >= 0, k < n))
    c.ensure("pulse times are subframe counts", And(num(p.shape[0]) == n, p.at(k) == fc.at(k) * nd))
    c.ensure("trigger times are passed unchanged", t is trig)
    exp = {"after_last": a.at(k), "until_next": b.at(k), "from_nearest": smin2(a.at(k), b.at(k))}
    for (nm, v), on in zip(exp.items(), flags):
        c.ensure(f"{nm} only when asked", hasattr(ds, f"subframes_{nm}_external_trigger") == on)
        if on:
            c.ensure(f"subframes {nm}", getattr(ds, f"subframes_{nm}_external_trigger").at(k) == v)
            c.ensure(f"seconds {nm}", getattr(ds, f"seconds_{nm}_external_trigger").at(k) * nd == v * period)


class Grp(dict):
    """stand-in for an h5py group: datasets are numpy arrays"""
    def require_dataset(self, name, shape, dtype=None):
        if name not in self:
            self[name] = fresh(ctx(), "h5_" + name, shape[0], rnp.int64)
        return self[name]


def h_tes(c):
    m = LOADC.load("mass.core.channel_group")
    LOADC.load("mass.core.analysis_algorithms").nearest_arrivals = contract_nearest(c, calls := [])

    class DS:
        pass

    class G(m.TESGroup):
        def __init__(self):
            pass

        def __iter__(self):
            return iter(dss)

        def set_chan_bad(self, *a):
            bad.append(a)
    bad, dss = [], []
    for i in range(2):
        d = DS()
        d.channum = 1 + 2 * i
        d.nPulses = c.int(f"n{i}", lo=0)
        d.p_subframecount = fresh(c, f"sf{i}", d.nPulses, rnp.int64)
        d.hdf5_group = Grp()
        dss.append(d)
    stale = c.choose("first channel already has results")
    old = {}
    if stale:
        for nm in ("after_last", "until_next", "from_nearest"):
            old[nm] = dss[0].hdf5_group[f"subframes_{nm}_external_trigger"] = fresh(c, "old" + nm, dss[0].nPulses, rnp.int64)
    force = c.choose("forceNew")
    trig = fresh(c, "trig", c.int("nt", lo=0), rnp.int64)
    g = G()
    g._external_trigger_subframe_count = trig
    g._bad_channums = {}
    k = [c.int(f"k{i}", lo=0) for i in range(2)]
    for i in range(2):
        c.assume(k[i] < dss[i].nPulses)
    before = {nm: a.at(k[0]) for nm, a in old.items()}
    g.calc_external_trigger_timing(forceNew=force)
    c.ensure("no channel marked bad", not bad)
    done = [d for i, d in enumerate(dss) if not (i == 0 and stale and not force)]
    c.ensure("one search per channel that needs it", len(calls) == len(done))
    for d, (p, t, a, b) in zip(done, calls):
        i = dss.index(d)
        c.ensure("triggers and pulses passed", And(p.at(k[i]) == d.p_subframecount.at(k[i]), num(t.shape[0]) == num(trig.shape[0])))
        kt = c.int("kt", lo=0)
        c.assume(kt < num(trig.shape[0]))
        c.ensure("trigger values", t.at(kt) == trig.at(kt))
        for nm, v in (("after_last", a.at(k[i])), ("until_next", b.at(k[i])), ("from_nearest", smin2(a.at(k[i]), b.at(k[i])))):
            c.ensure("stored " + nm, d.hdf5_group[f"subframes_{nm}_external_trigger"].at(k[i]) == v)
    if stale and not force:
        for nm in before:
            c.ensure("existing results kept " + nm, dss[0].hdf5_group[f"subframes_{nm}_external_trigger"].at(k[0]) == before[nm])
    c.cover("end")


HARNESSES = [
    Harness("nearest_arrivals", h_nearest, functions=["mass/core/analysis_algorithms.pyx:nearest_arrivals"],
            specs={("nearest_arrivals", 0): LoopSpec(inv0), ("nearest_arrivals", 1): LoopSpec(inv1),
                   ("nearest_arrivals", 2): LoopSpec(inv2), ("nearest_arrivals", 3): LoopSpec(inv3),
                   ("nearest_arrivals", 4): LoopSpec(inv3)}),
    Harness("OFF Channel._calcExternalTriggerTiming", h_off,
            functions=["mass/off/channels.py:Channel._calcExternalTriggerTiming", "mass/off/channels.py:Channel.subframecount",
                       "mass/off/channels.py:Channel.subframePeriodSeconds", "mass/off/channels.py:Channel.subframeDivisions"]),
    Harness("TESGroup.calc_external_trigger_timing", h_tes, functions=["mass/core/channel_group.py:TESGroup.calc_external_trigger_timing"]),
]
