import math, os
import h5py
import numpy as np
from lib import *
from mass.calibration.energy_calibration import EnergyCalibration

T = EnergyCalibration.CURVETYPE


class Model:
    """what the table must hold: (ph, energy, name, dph, de) in order of pulse height"""
    def __init__(self): self.p = []

    def add(self, ph, e, name, dph, de, over):
        """False: refused"""
        tol = 0.01 if de is None else de
        row = [ph, e, name, ph * 0.001 if dph is None else dph, tol]
        at = [i for i, r in enumerate(self.p) if name and r[2] == name]
        if not at and self.p:
            d = [abs(e - r[1]) for r in self.p]
            if min(d) <= tol:
                at = [d.index(min(d))]
        new = [list(r) for r in self.p]
        if at:
            if not over:
                return False
            row[2] = name or new[at[0]][2]
            new[at[0]] = row
        else:
            new.append(row)
        new.sort()
        if any(b[1] <= a[1] for a, b in zip(new, new[1:])):
            return False
        self.p = new
        return True


def compare(cal, m, what):
    cols = list(zip(*m.p)) or [()] * 5
    check(cal.npts == len(m.p), what + ": number of points", got=cal.npts, want=m.p)
    for got, want, k in ((cal.cal_point_phs, cols[0], "heights"), (cal.cal_point_energies, cols[1], "energies"), (cal._dph, cols[3], "height errors"), (cal._de, cols[4], "energy errors")):
        same(np.asarray(got, float), np.array(want, float), f"{what}: {k}")
    check(list(cal.cal_point_names) == list(cols[2]), what + ": names", got=list(cal.cal_point_names), want=cols[2])


def usable(m, curve):
    return len(m.p) != 1 or curve in ("loglog", "gain", "invgain")


def curve_of(cal, pts):
    with np.errstate(all="ignore"):
        return np.array(cal.ph2energy(np.array(pts, float)))


def honours(cal, m, what):
    """the curve in use passes through the table's points, as a fresh calibration of the same table does"""
    if not usable(m, cal.curvename()):
        return
    if not m.p:
        same(cal.ph2energy(np.array([1.0, 7.5])), np.array([1.0, 7.5]), what + ": without points")
        same(cal.energy2ph(np.array([1.0, 7.5])), np.array([1.0, 7.5]), what + ": without points, inverse")
        return
    ph, e = np.array([r[0] for r in m.p]), np.array([r[1] for r in m.p])
    same(curve_of(cal, ph), e, what + ": curve at the points", rtol=1e-8)
    same(cal.ph2energy(float(ph[0])), e[0], what + ": curve at the first point, a number", rtol=1e-8)


def rising(cal, ph):
    g = np.hstack([np.linspace(0, 2 * ph[-1], 2000)[1:], ph])
    g.sort()
    v = curve_of(cal, g)
    return np.all(np.isfinite(v)) and np.all(np.diff(v) > 0)


def law(rng):
    a, b, k = rng.uniform(0.5, 2.0), rng.uniform(1.0, 1.15), rng.choice([0, 0, 0.02])
    return lambda x: a * x**b * (1 + k * math.sin(x / 900))


NAMES = ["", "MnKa", "CuKa", "FeKb", "FeKa", "Fe", "xFe", "x1", "x2", "x3"]


@trial(weight=3, min_runs=60)
def histories(rng):
    f = law(rng)
    curve = rng.choice(T)
    cal = EnergyCalibration(curvetype=curve, nonlinearity=1.1)
    m = Model()
    log = []
    for step in range(rng.randint(3, 22)):
        if rng.maybe(0.5):
            cal.ph2energy(3.0) if usable(m, cal.curvename()) else None      # computes the curve in between
        k = rng.random()
        if k < 0.68 or not m.p:
            ph = float(rng.choice([rng.randint(1, 60) * 100, rng.uniform(50, 6000)]))
            e = f(ph)
            if m.p and rng.maybe(0.3):      # at the energy of another point, or next to it
                r = rng.choice(m.p)
                e, ph = r[1] + rng.choice([0, 0.004, -0.004, 0.02, 0.3]), r[0] * rng.choice([1.0001, 0.9999, 1.5, 0.3])
            name = rng.choice(NAMES)
            if m.p and rng.maybe(0.3):
                name = rng.choice(m.p)[2]
            if name in [r[2] for r in m.p] and name and any(abs(e - r[1]) <= 1 for r in m.p if r[2] != name):
                continue
            if any(abs(ph - r[0]) < 1e-9 for r in m.p):
                continue
            dph, de = rng.choice([None, ph * 0.002]), rng.choice([None, None, 0.005, 0.5, 0.0])
            over = rng.maybe(0.8)
            log.append(("add", ph, e, name, dph, de, over))
            note(curve=curve, steps=log)
            before = Model()
            before.p = [list(r) for r in m.p]
            v = None
            if usable(m, cal.curvename()) and m.p:
                v = curve_of(cal, [r[0] * 1.01 for r in m.p])
            ok = m.add(ph, e, name, dph, de, over)
            refused = raises(Exception, cal.add_cal_point, ph, e, name, dph, de, overwrite=over)
            check(refused == (not ok), "point refused", refused=refused)
            if not ok and v is not None:
                same(curve_of(cal, [r[0] * 1.01 for r in m.p]), v, "a refused point leaves the curve")
        elif k < 0.76:
            names = [r[2] for r in m.p if r[2]]
            if not names:
                continue
            x = rng.choice(names)
            log.append(("remove", x))
            note(curve=curve, steps=log)
            cal.remove_cal_point_name(x)
            m.p = [r for r in m.p if r[2] != x]
        elif k < 0.84:
            x = rng.choice(["Fe", "x", "zz", "Mn"])
            log.append(("prefix", x))
            note(curve=curve, steps=log)
            n = cal.remove_cal_point_prefix(x)
            check(n == sum(r[2].startswith(x) for r in m.p), "number removed", got=n)
            m.p = [r for r in m.p if not r[2].startswith(x)]
        elif k < 0.92:
            r = rng.choice(m.p)
            e, de = r[1] + rng.choice([0, 1, -3]), rng.choice([5, 0.5, 3000, 600])
            log.append(("interval", e, de))
            note(curve=curve, steps=log)
            cal.remove_cal_point_energy(e, de)
            m.p = [r for r in m.p if not abs(r[1] - e) < de]
        else:
            curve = rng.choice(T)
            log.append(("curve", curve))
            note(curve=curve, steps=log)
            cal.set_curvetype(curve if rng.maybe() else T.index(curve))
        compare(cal, m, "table")
        if rng.maybe(0.6):
            honours(cal, m, "after each change")
    compare(cal, m, "final table")
    honours(cal, m, "final")


def table(rng, lo=2, hi=9, near=False):
    f = law(rng)
    n = rng.randint(lo, hi)
    ph = np.cumsum([rng.uniform(200, 900) for _ in range(n)])
    rows = [[float(p), f(float(p)), f"l{i}" if rng.maybe(0.7) else "", float(p) * 0.002, 0.05] for i, p in enumerate(ph)]
    if near and n >= 2:
        # points closer in energy than the energy error recorded with them
        rows[1][1] = rows[0][1] + 0.2
        rows[1][0] = rows[0][0] + 0.15
    return rows


def filled(rows, rng, **kw):
    cal = EnergyCalibration(**kw)
    order = list(rows)
    rng.shuffle(order)
    for r in order:
        cal.add_cal_point(*r)
    return cal


@trial(weight=1.5, min_runs=30)
def inverse(rng):
    rows = table(rng, lo=1)
    curve = rng.choice(T if len(rows) > 1 else ("loglog", "gain", "invgain"))
    note(curve=curve, rows=rows)
    cal = filled(rows, rng, curvetype=curve)
    m = Model()
    m.p = rows
    compare(cal, m, "table")
    honours(cal, m, "curve")
    ph = np.array([r[0] for r in rows])
    if not rising(cal, ph):
        raise Skip()
    x = np.hstack([ph, [rng.uniform(ph[0], ph[-1]) for _ in range(7)]])
    e = curve_of(cal, x)
    same(cal.energy2ph(e), x, "energy2ph", rtol=2e-4)
    same(cal.e2ph(float(e[0])), x[0], "energy2ph of a number", rtol=2e-4)
    same(cal.energy2ph_exact(e[:9]), x[:9], "energy2ph_exact", rtol=1e-7)
    same(cal.energy2ph_exact(float(e[-1])), x[-1], "energy2ph_exact of a number", rtol=1e-7)
    h = 1e-3
    same(cal.ph2dedph(x), (curve_of(cal, x + h) - curve_of(cal, x - h)) / (2 * h), "slope", rtol=1e-4)
    if rng.maybe(0.3):
        many = np.linspace(e[: len(ph)].min(), e[: len(ph)].max(), 1100)
        if rng.maybe(0.3):
            many = np.unique(many.astype(int))
            many = np.resize(many, 1100)
        back = curve_of(cal, cal.energy2ph_exact(many))
        same(back, many, "energy2ph_exact of many", rtol=1e-7)


@trial(weight=1.5, min_runs=30)
def persistence(rng):
    rows = table(rng, lo=1, near=rng.maybe(0.3)) if rng.maybe(0.9) else []
    curve = rng.choice([t for t in T if len(rows) > 1 or t in ("loglog", "gain", "invgain")])
    approx, gpr, nl = (len(rows) > 3 and rng.maybe(0.3)), rng.maybe(), rng.choice([1.0, 1.1, 1.15, 1.3])
    note(curve=curve, rows=rows, approximate=approx, gpr=gpr, nonlinearity=nl)
    rows2 = [r[:4] + [0.05] for r in rows]
    cal = filled(rows2, rng, curvetype=curve, approximate=approx, useGPR=gpr)
    cal.set_nonlinearity(nl)
    m = Model()
    m.p = rows2
    if rows and rng.maybe(0.3) and len(rows) > 1:
        # two points nearer than the error of the second: stored with a small error, then widened
        cal._de[:] = 0.5
        for r in rows2:
            r[4] = 0.5
    x = np.array([r[0] for r in rows] + [300.0, 1234.5])
    with np.errstate(all="ignore"):
        want = curve_of(cal, x)
        c = cal.copy()
        compare(c, m, "copy")
        same(curve_of(c, x), want, "curve of the copy", rtol=1e-9)
        p = os.path.join(tmpdir(), "c.h5")
        with h5py.File(p, "w") as h:
            if rng.maybe(0.3):
                cal.save_to_hdf5(h, "cal")
            cal.save_to_hdf5(h, "cal")
        with h5py.File(p, "r") as h:
            d = EnergyCalibration.load_from_hdf5(h, "cal")
        compare(d, m, "reloaded")
        check((d.curvename(), d.nonlinearity, bool(d._use_approximation), bool(d._use_GPR)) == (curve, nl, approx, gpr), "settings reloaded", got=(d.curvename(), d.nonlinearity, d._use_approximation, d._use_GPR))
        same(curve_of(d, x), want, "curve reloaded", rtol=1e-9)
        # independent of the original
        if not approx:
            top = (rows[-1] if rows else [100.0, 100.0])
            c.add_cal_point(top[0] * 1.5, top[1] * 1.6, "new", 1.0, 0.05)
            compare(cal, m, "original after a change of its copy")
            same(curve_of(cal, x), want, "curve of the original after a change of its copy", rtol=1e-9)


@trial(weight=1, min_runs=20)
def settings(rng):
    """a changed setting or table always changes the curve used next: as a new calibration with the same contents"""
    rows = table(rng, lo=4)
    kw = dict(curvetype=rng.choice(T), approximate=rng.maybe(0.3), useGPR=rng.maybe())
    note(rows=rows, kw=kw)
    cal = filled(rows, rng, **kw)
    steps = []
    x = np.array([r[0] * 1.02 for r in rows])
    with np.errstate(all="ignore"):
        for _ in range(rng.randint(1, 5)):
            which = rng.randrange(4)
            how = [lambda: cal.ph2energy(x), lambda: cal.energy2ph(x), lambda: cal(x), lambda: cal.ph2dedph(x)][rng.randrange(4)]
            how()
            if which == 0:
                kw["curvetype"] = rng.choice(T)
                cal.set_curvetype(kw["curvetype"])
            elif which == 1:
                kw["approximate"] = not kw["approximate"]
                cal.set_use_approximation(kw["approximate"])
            elif which == 2:
                kw["useGPR"] = not kw["useGPR"]
                cal.set_GPR(kw["useGPR"])
            else:
                r = rows[-1]
                rows[-1] = [r[0], r[1] * rng.choice([1.01, 0.995]), r[2], r[3], 1e6 if not r[2] else r[4]]
                cal.remove_cal_point_energy(r[1], 1e-3)
                cal.add_cal_point(*rows[-1][:4], 0.05)
                rows[-1][4] = 0.05
            steps.append((which, dict(kw)))
            note(steps=steps)
            fresh = filled(rows, rng, **kw)
            same(np.array(cal.ph2energy(x)), np.array(fresh.ph2energy(x)), "curve after the change", rtol=1e-9)
            e = np.array(fresh.ph2energy(x))
            same(np.array(cal.energy2ph(e)), np.array(fresh.energy2ph(e)), "inverse after the change", rtol=1e-9)


@trial(weight=0.5, min_runs=20)
def one_point(rng):
    """a single point: proportional, or the power law of the exponent set last"""
    curve = rng.choice(("loglog", "gain", "invgain"))
    cal = EnergyCalibration(curvetype=curve)
    ph, e, nl = rng.uniform(50, 5000), rng.uniform(100, 9000), 1.0
    x = np.array([ph * 0.4, ph, ph * 1.7])
    steps = []
    note(curve=curve, ph=ph, e=e, steps=steps)
    cal.set_nonlinearity(nl)
    for _ in range(rng.randint(1, 5)):
        k = rng.randrange(3)
        if k == 0:
            nl = rng.choice([1.0, 1.1, 1.15, 1.3, 2])
            cal.set_nonlinearity(nl)
        elif k == 1 or not cal.npts:
            ph, e = rng.uniform(50, 5000), rng.uniform(100, 9000)
            cal.add_cal_point(ph, e, "p")
            x = np.array([ph * 0.4, ph, ph * 1.7])
        else:
            curve = rng.choice(("loglog", "gain", "invgain"))
            cal.set_curvetype(curve)
        steps.append((k, curve, ph, e, nl))
        if not cal.npts:
            same(cal.ph2energy(x), x, "without points")
            continue
        same(cal.ph2energy(x), e * (x / ph) ** (nl if curve == "loglog" else 1), "curve through one point", rtol=1e-9)
        same(cal.energy2ph(cal.ph2energy(x)), x, "inverse", rtol=2e-4)
