"""per-pulse marks: a model (set of pulses per cut) kept beside the real object"""
import numpy as np, os
from lib import *
from cutgroup import *


class State:
    def __init__(self, rng):
        self.rng = rng
        d = tmpdir()
        self.g = Group(os.path.join(d, "f.hdf5"), mem=rng.maybe(0.8))
        self.g.cut_field_desc_init()
        self.n = rng.size(9)
        self.stored = rng.maybe()
        self.ds = self.g.add(self.n, self.stored, "chan1")
        self.cuts = self.ds.cuts
        self.bools = {r["name"].decode(): [False] * self.n for r in self.g.boolean_cut_desc if r["name"]}
        self.cats = {}
        for r in self.g.categorical_cut_desc:
            self.addcat(r["name"].decode())
        self.log = []
        note(n=self.n, stored=self.stored, log=self.log)

    def addcat(self, f):
        codes = {k: int(v) for k, v in self.g.cut_field_categories(f).items()}
        self.cats[f] = (codes, [0] * self.n)

    def mask(self):
        return self.rng.np.random(self.n) < self.rng.choice([0, 0.3, 0.5, 1])

    def verify(self):
        b = self.bools
        for f, marks in b.items():
            same(self.cuts.bad(f), np.array(marks, dtype=bool), f"bad({f!r})")
            same(self.cuts.good(f), ~np.array(marks, dtype=bool), f"good({f!r})")
        anyb = np.zeros(self.n, dtype=bool)
        for f in b:
            anyb |= np.array(b[f], dtype=bool)
        same(self.cuts.bad(), anyb, "bad()")
        same(self.cuts.good(), ~anyb, "good()")
        for f, (codes, vals) in self.cats.items():
            same(self.cuts.category_codes(f), np.array(vals, dtype=np.uint32), f"category_codes({f!r})")
            for lab, code in codes.items():
                if f.isidentifier() or True:
                    same(self.cuts.select_category(**{f: lab}), np.array(vals) == code if self.n else np.zeros(0, bool), f"select_category({f}={lab})")
        cm = self.cuts.cut_mask()
        check(len(cm) == self.n, "cut_mask has one row per pulse")
        for f, marks in b.items():
            same(cm[f], ~np.array(marks, dtype=bool), f"cut_mask column {f}")
        for f, (codes, vals) in self.cats.items():
            same(cm[f], np.array(vals, dtype=np.uint32), f"cut_mask column {f}")


def number_of(st, name):
    for i, r in enumerate(st.g.boolean_cut_desc):
        if r["name"].decode() == name:
            return i


def step(st, rng):
    op = rng.choice(["cut", "cut", "cutnum", "clear", "clearall", "query", "unknown", "param", "reg", "unreg", "regcat", "unregcat", "label", "label", "codes", "conflict"])
    g, cu, n = st.g, st.cuts, st.n
    names = sorted(st.bools)
    if op in ("cut", "cutnum") and names:
        f = rng.choice(names)
        m = st.mask()
        st.log.append((op, f, m.tolist()))
        if op == "cut":
            cu.cut(f, m)
        else:
            i = number_of(st, f)
            cu.cut(rng.choice([i, int(i)]), m)
        st.bools[f] = [a or bool(b) for a, b in zip(st.bools[f], m)]
    elif op == "clear" and names:
        fs = rng.choices(names, k=rng.randint(1, 3))
        st.log.append((op, fs))
        cu.clear_cut(*fs)
        for f in fs:
            st.bools[f] = [False] * n
    elif op == "clearall":
        st.log.append(op)
        cu.clear_cut()
        for f in names:
            st.bools[f] = [False] * n
    elif op == "query" and names:
        fs = rng.choices(names, k=rng.randint(1, 4))
        want = np.zeros(n, dtype=bool)
        for f in fs:
            want |= np.array(st.bools[f], dtype=bool)
        st.log.append((op, fs))
        same(cu.bad(*fs), want, f"bad{fs}")
        same(cu.good(*fs), ~want, f"good{fs}")
        sel = {f: rng.choice(sorted(c)) for f, (c, v) in st.cats.items() if rng.maybe()}
        s = np.ones(n, dtype=bool)
        for f, l in sel.items():
            s &= np.array(st.cats[f][1], dtype=np.int64) == st.cats[f][0][l]
        same(cu.good(*fs, **sel), ~want & s, f"good{fs} {sel}")
        same(cu.bad(*fs, **sel), want & s, f"bad{fs} {sel}")
        if sel:
            same(cu.select_category(**sel), s, f"select_category({sel})")
            cols = rng.sample(names, 1) + list(sel)
            cm = cu.cut_mask(*cols)
            check(set(cm.dtype.names) == set(cols), "requested columns", got=cm.dtype.names)
            same(cm[cols[0]], ~np.array(st.bools[cols[0]], dtype=bool), "cut_mask column")
            for f in sel:
                same(cm[f], np.array(st.cats[f][1], dtype=np.uint32), "cut_mask column")
    elif op == "unknown":
        m = st.mask()
        st.log.append(op)
        check(raises(ValueError, cu.cut, "no such cut", m), "unknown cut is refused")
        free = [i for i, r in enumerate(g.boolean_cut_desc) if not r["name"]]
        for i in [-1, 32] + free[:1]:
            check(raises(ValueError, cu.cut, i, m), "unregistered number is refused", i=i)
        check(raises(ValueError, cu.clear_cut, "no such cut"), "unknown cut is refused")
        check(raises(ValueError, cu.good, "no such cut"), "unknown cut is refused")
        check(raises((KeyError, ValueError), cu.category_codes, "no such"), "unknown field is refused")
        for f in st.cats:
            check(raises(ValueError, cu.select_category, **{f: "no such label"}), "unknown label is refused")
    elif op == "param" and names:
        f = rng.choice(names)
        data = rng.np.choice([-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0], n)
        if rng.maybe(0.2):
            data = data.astype(np.float32)
        pick = lambda: rng.choice([None, 0, 0.0, -1.0, 0.5, 1, 2.0, -1])
        lo, hi = pick(), pick()
        al = rng.choice([(lo, hi), [lo, hi]])
        st.log.append((op, f, data.tolist(), al))
        cid = f if rng.maybe() else number_of(st, f)
        if rng.maybe(0.1):
            cu.cut_parameter(data, None, cid)
            al, lo, hi = None, None, None
        else:
            cu.cut_parameter(data, al, cid)
        bad = np.zeros(n, dtype=bool)
        if lo is not None:
            bad |= data <= lo
        if hi is not None:
            bad |= data >= hi
        st.bools[f] = [a or bool(b) for a, b in zip(st.bools[f], bad)]
    elif op == "reg":
        new = rng.choices([f"u{i}" for i in range(8)], k=rng.randint(1, 2))
        st.log.append((op, new))
        try:
            g.register_boolean_cut_fields(*new)
        except ValueError:
            return
        for f in new:
            st.bools.setdefault(f, [False] * n)
    elif op == "unreg" and names:
        fs = rng.choices(names, k=rng.randint(1, 3))
        st.log.append((op, fs))
        g.unregister_boolean_cut_fields(*fs)
        for f in set(fs):
            del st.bools[f]
    elif op == "regcat":
        f = rng.choice(["c1", "c2", "c3", "state"])
        labs = rng.choices([f"L{i}" for i in range(20)], k=rng.choice([1, 2, 3, 5, 8]))
        dflt = rng.choice(labs) if rng.maybe() else "uncategorized"
        st.log.append((op, f, labs, dflt))
        if f in st.cats:
            g.register_categorical_cut_field(f, labs, dflt)
            return
        try:
            g.register_categorical_cut_field(f, labs, default=dflt)
        except ValueError:
            return
        st.addcat(f)
        check(st.cats[f][0][dflt] == 0, "unlabelled pulses are in the default category")
        check(set(st.cats[f][0]) == set(labs) | {dflt}, "all labels are registered")
    elif op == "unregcat" and st.cats:
        f = rng.choice(sorted(st.cats))
        st.log.append((op, f))
        g.unregister_categorical_cut_field(f)
        del st.cats[f]
    elif op == "label" and st.cats:
        f = rng.choice(sorted(st.cats))
        codes = st.cats[f][0]
        labs = rng.sample(sorted(codes), k=rng.randint(1, len(codes)))
        who = [rng.choice(labs + [None]) for _ in range(n)]
        st.log.append((op, f, who))
        cu.cut_categorical(f, {l: np.array([w == l for w in who], dtype=bool) for l in labs})
        st.cats[f] = (codes, [0 if w is None else codes[w] for w in who])
    elif op == "codes" and st.cats:
        f = rng.choice(sorted(st.cats))
        codes = st.cats[f][0]
        v = rng.np.choice(sorted(codes.values()), n).astype(np.uint32)
        st.log.append((op, f, v.tolist()))
        cu.cut(f, rng.choice([v, v.astype(np.int64)]))
        st.cats[f] = (codes, v.tolist())
    elif op == "conflict" and st.cats and n:
        f = rng.choice(sorted(st.cats))
        codes = sorted(st.cats[f][0])
        if len(codes) < 2:
            return
        a, b = rng.sample(codes, 2)
        ma, mb = st.mask(), st.mask()
        i = rng.randrange(n)
        ma[i] = mb[i] = True
        st.log.append((op, f, a, ma.tolist(), b, mb.tolist()))
        check(raises(ValueError, cu.cut_categorical, f, {a: ma, b: mb}), "conflicting labels are refused")


@trial(weight=5, min_runs=30)
def mark_history(rng):
    st = State(rng)
    st.verify()
    for _ in range(rng.randint(2, 25)):
        step(st, rng)
        if rng.maybe(0.3):
            st.verify()
    st.verify()
    st.g.hdf5_file.close()


@trial(weight=1, min_runs=30)
def range_lists(rng):
    """a list of ranges keeps what lies in any closed range; 'invert' marks what lies in one"""
    st = State(rng)
    names = sorted(st.bools)
    f = rng.choice(names)
    n = st.n
    data = rng.np.choice([-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0], n)
    rs = []
    for _ in range(rng.randint(1, 3)):
        a, b = sorted(rng.choices([-2.0, -1.0, 0.0, 0.5, 1.0, 2.5], k=2))
        rs.append(rng.choice([(a, b), [a, b], (None, b), (a, None)]))
    inv = rng.maybe(0.4)
    note(data=data.tolist(), ranges=rs, invert=inv)
    inside = np.zeros(n, dtype=bool)
    for a, b in rs:
        x = np.ones(n, dtype=bool)
        if a is not None:
            x &= data >= a
        if b is not None:
            x &= data <= b
        inside |= x
    al = rs + ["invert"] if inv else rs
    st.cuts.cut_parameter(data, al, f)
    st.bools[f] = (inside if inv else ~inside).tolist()
    st.verify()
    st.g.hdf5_file.close()
