import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, SArr
from loader import Loader
from harness import Harness

AA = "mass/core/analysis_algorithms.pyx:"
LOAD = Loader()


def pulse(c, n, nm="k"):
    k = c.int(nm)
    c.assume(And(k >= 0, k < n))
    return k


def h_apply(c):
    m = LOAD.load("mass.off.channels")
    n = c.int("n", lo=0)
    ind, unc = fresh(c, "ind", n, rnp.float64), fresh(c, "unc", n, rnp.float64)
    slope, ref = c.real("slope"), c.real("ref")
    d = m.DriftCorrection("a", "b", ref, slope)
    for nm, f in (("apply", d.apply), ("call", d)):
        r = f(ind, unc)
        c.ensure(nm + ": one value per pulse", num(r.shape[0]) == n)
        k = pulse(c, n, "k" + nm)
        c.ensure(nm + ": value * (1 + slope*(indicator - reference))", r.at(k) == unc.at(k) * (1 + slope * (ind.at(k) - ref)))
        c.ensure(nm + ": a pulse at the reference is unchanged", Implies(ind.at(k) == ref, r.at(k) == unc.at(k)))
    c.cover("end")


class DSet:
    def __init__(self, v): self.v = v

    def __getitem__(self, k):
        if k == ():
            return self.v.encode() if isinstance(self.v, str) else self.v
        return self.v[k]


class H5(dict):
    """h5py group: assignment creates a dataset (an existing name is an error), [()] reads it, text comes back as bytes"""

    def __setitem__(self, k, v):
        if k in self:
            raise ValueError("name already exists")
        dict.__setitem__(self, k, DSet(v))


def h_persist(c):
    m = LOAD.load("mass.off.channels")
    slope, ref = c.real("slope"), c.real("ref")
    g = H5()
    nm = {"name": "other"} if c.choose("custom name") else {}
    a = m.DriftCorrection("ind1", "unc1", ref, slope)
    a.toHDF5(g, **nm)
    b = m.DriftCorrection.fromHDF5(g, **nm)
    c.ensure("slope and reference survive", And(b.slope == slope, b.medianIndicator == ref))
    c.ensure("names survive", b.indicatorName == "ind1" and b.uncorrectedName == "unc1")
    c.ensure("class", isinstance(b, m.DriftCorrection))
    x, y = c.real("x"), c.real("y")
    c.ensure("same correction", b.apply(x, y) == a.apply(x, y))


def h_learn(c):
    """drift_correct returns the minimiser's slope and the median of the indicator it was given; the objective
    handed to the minimiser is the entropy of uncorrected*(1 + slope*(indicator - median))"""
    L = Loader()
    m = L.load("mass.core.analysis_algorithms")
    n = c.int("n", lo=1)
    ind, unc = fresh(c, "ind", n, rnp.float64), fresh(c, "unc", n, rnp.float64)
    slope, med = c.real("slope"), c.real("median")
    seen = {}

    class Smoother:
        def __init__(self, sigma, limits): seen["limits"] = limits

        def __call__(self, v):
            seen["hist"] = v
            return fresh(c, "hsm", c.int("nb", lo=1), rnp.float64)

    def brent(f, args=(), brack=None, **k):
        seen["f"], seen["args"] = f, args
        return slope

    class Opt: pass
    sp = Opt()
    sp.optimize = Opt()
    sp.optimize.brent = brent
    real_np = m.np

    class NP:
        def __getattr__(self, k):
            if k == "median":
                def f(x):
                    seen["median_of"] = x
                    return med
                return f
            if k == "percentile":
                return lambda x, q: c.real("pct")
            return getattr(real_np, k)
    m.np, m.sp, m.HistogramSmoother = NP(), sp, Smoother
    lim = c.real("limit") if c.choose("limit given") else None
    s, info = m.drift_correct(ind, unc, limit=lim) if lim is not None else m.drift_correct(ind, unc)
    k = pulse(c, n)
    c.ensure("slope is the minimiser's", And(s == slope, info["slope"] == slope))
    c.ensure("reference is the median of the given indicator", And(info["median_pretrig_mean"] == med, num(seen["median_of"].shape[0]) == n, seen["median_of"].at(k) == ind.at(k)))
    c.ensure("kind of correction", info["type"] == "ptmean_gain")
    t = c.real("trial_slope")
    seen["f"](t, *seen["args"])
    h = seen.get("hist")
    c.ensure("the objective looks at the corrected values", And(num(h.shape[0]) == n, h.at(k) == unc.at(k) * (1 + t * (ind.at(k) - med))))


class Attrs(dict): pass


class P:
    """h5py dataset with attributes"""

    def __init__(self, a):
        self.a, self.attrs = a, Attrs()

    def __getitem__(self, k): return self.a[k]
    def __setitem__(self, k, v): self.a[k] = v


def h_dataset(c):
    L = Loader()
    m = L.load("mass.core.channel")
    A = L.load("mass.core.analysis_algorithms")
    n = c.int("n", lo=1)

    class DS(m.MicrocalDataSet):
        def __init__(self): pass
    ds = DS()
    ds.channum = 1
    ptm, val, good = fresh(c, "ptm", n, rnp.float64), fresh(c, "val", n, rnp.float64), fresh(c, "good", n, rnp.dtype(bool))
    val2 = fresh(c, "val2", n, rnp.float64)
    ds.p_pretrig_mean, ds.p_filt_value, ds.p_other = ptm, val, val2
    dc = fresh(c, "dc", n, rnp.float64)
    ds.p_filt_value_dc = P(dc)
    cat = {"state": "A"} if c.choose("category") else {}
    asked = []

    class Cuts:
        def good(self, *a, **k):
            asked.append((a, k))
            return good
    ds.cuts = Cuts()

    class Any:
        def __getattr__(self, k): return Any()
        def __call__(self, *a, **k): return None
    ds.hdf5_group = Any()
    slope, med = c.real("slope"), c.real("median")
    calls = []

    def learn(indicator, uncorrected, limit=None):
        calls.append((indicator, uncorrected))
        return slope, {"type": "ptmean_gain", "slope": slope, "median_pretrig_mean": med}
    A.drift_correct = learn
    attr = "p_other" if c.choose("other attribute") else "p_filt_value"
    src = val2 if attr == "p_other" else val
    old = dc.copy()
    m.MicrocalDataSet.drift_correct(ds, attr=attr, forceNew=True, category=cat)
    c.ensure("learned once", len(calls) == 1)
    i, u = calls[0]
    c.ensure("good pulses of the requested category", len(asked) >= 1 and all(a == ((), cat) for a in asked))
    want_i, want_u = ptm[good], src[good]
    j = c.int("j", lo=0)
    c.assume(j < num(want_i.shape[0]))
    c.ensure("learned from exactly the selected pulses", And(num(i.shape[0]) == num(want_i.shape[0]), num(u.shape[0]) == num(want_u.shape[0]), i.at(j) == want_i.at(j), u.at(j) == want_u.at(j)))
    k = pulse(c, n)
    c.ensure("applied to every pulse", ds.p_filt_value_dc.a.at(k) == src.at(k) * (1 + slope * (ptm.at(k) - med)))
    c.ensure("the learned numbers are stored", And(ds.p_filt_value_dc.attrs["slope"] == slope, ds.p_filt_value_dc.attrs["median_pretrig_mean"] == med))
    c.ensure("inputs unchanged", src.at(k) == (val2 if attr == "p_other" else val).at(k))


def h_offlearn(c):
    L = Loader()
    m = L.load("mass.off.channels")
    A = L.load("mass.core.analysis_algorithms")
    n = c.int("n", lo=1)
    ind, unc = fresh(c, "ind", n, rnp.float64), fresh(c, "unc", n, rnp.float64)
    slope, med = c.real("slope"), c.real("median")
    calls, got, added = [], [], []

    class Ch(m.Channel):
        def __init__(self): pass

        def getAttr(self, names, states=None, cutRecipeName=None, *a, **k):
            got.append((list(names), states, cutRecipeName))
            return [ind, unc]

    def learn(i, u, *a, **k):
        calls.append((i, u))
        return slope, {"type": "ptmean_gain", "slope": slope, "median_pretrig_mean": med}
    A.drift_correct = learn

    class R:
        def add(self, name, f, ingredients=None, overwrite=False):
            added.append((name, f, ingredients))
    ch = Ch()
    ch.recipes = R()
    ch.markedBadBool = False
    kw = dict(indicatorName="pm", uncorrectedName="fv", states="A", cutRecipeName="cr")
    if c.choose("name given"):
        kw["correctedName"] = "mine"
    r = m.Channel.learnDriftCorrection(ch, **kw)
    c.ensure("learned from the selected pulses", got == [(["pm", "fv"], "A", "cr")] and len(calls) == 1 and calls[0][0] is ind and calls[0][1] is unc)
    ok = len(added) == 1 and added[0][0] == kw.get("correctedName", "fvDC") and list(added[0][2]) == ["pm", "fv"]
    c.ensure("one recipe from indicator and value", ok)
    if ok:
        f = added[0][1]
        k = pulse(c, n)
        c.ensure("recipe applies the learned gain", f(ind, unc).at(k) == unc.at(k) * (1 + slope * (ind.at(k) - med)))


def int_multiple(c, name, diff, q):
    """diff is an integer times q: the integer is the combination of the rounding terms of diff (found by evaluation at q = 1, then proved)"""
    d = z3.simplify(num(diff).e, som=True)
    T = []

    def walk(t, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_TO_INT):
            if not any(t.eq(x) for x in T):
                T.append(t)
            return
        for ch in t.children():
            walk(ch, seen)
    walk(d, set())
    tv = [z3.Int(f"!t{i}") for i in range(len(T))]
    d2 = z3.substitute(d, *[(a, b) for a, b in zip(T, tv)]) if T else d

    def atoms(t, out, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
            return
        for ch in t.children():
            atoms(ch, out, seen)
    at = []
    atoms(d2, at, set())
    base = [(a, (z3.RealVal(1) if a.eq(num(q).e) else (z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)))) for a in at if not any(a.eq(t) for t in tv)]

    def ev(vals):
        return z3.simplify(z3.substitute(d2, *base, *[(t, z3.IntVal(v)) for t, v in zip(tv, vals)]))
    try:
        z = [0] * len(T)
        c0 = ev(z).as_fraction()
        co = []
        for i in range(len(T)):
            o = list(z)
            o[i] = 1
            co.append(ev(o).as_fraction() - c0)
        ok = all(x.denominator == 1 for x in co + [c0])
    except Exception:
        ok = False
    if not ok:
        return c.ensure(name, SBool(z3.IsInt(num(diff).e / num(q).e)))
    w = z3.IntVal(int(c0))
    for x, t in zip(co, T):
        w = w + int(x) * t
    return c.ensure(name, SBool(num(diff).e == num(q).e * z3.ToReal(w)))


def h_flux(c):
    m = LOAD.load("mass.core.analysis_algorithms")
    n = c.int("n", lo=1)
    vals, g = fresh(c, "vals", n, rnp.float64), fresh(c, "g", n, rnp.dtype(bool))
    i = pulse(c, n, "i")
    c.assume(g.at(i))
    q = c.real("q")
    c.assume(q > 0)
    old = vals.copy()
    r = m.correct_flux_jumps(vals, g, q)
    k = pulse(c, n)
    c.ensure("one value per pulse", num(r.shape[0]) == n)
    int_multiple(c, "changed by whole flux quanta", r.at(k) - old.at(k), q)
    c.ensure("input unchanged", vals.at(k) == old.at(k))


HARNESSES = [
    Harness("DriftCorrection.apply", h_apply, functions=["mass/off/channels.py:DriftCorrection.apply", "mass/off/channels.py:DriftCorrection.__call__"]),
    Harness("DriftCorrection HDF5 round trip", h_persist, functions=["mass/off/channels.py:DriftCorrection.toHDF5", "mass/off/channels.py:DriftCorrection.fromHDF5"]),
    Harness("drift_correct", h_learn, functions=[AA + "drift_correct"]),
    Harness("MicrocalDataSet.drift_correct", h_dataset, functions=["mass/core/channel.py:MicrocalDataSet.drift_correct", "mass/core/channel.py:MicrocalDataSet._apply_drift_correction"]),
    Harness("Channel.learnDriftCorrection", h_offlearn, functions=["mass/off/channels.py:Channel.learnDriftCorrection"]),
    Harness("correct_flux_jumps", h_flux, functions=[AA + "correct_flux_jumps"]),
]
