"""Experiment states: which records each label's slices contain, for any number of state changes and records.

r is an arbitrary record, lab an arbitrary (renamed) label; `act` is the number of the last state change not later
than record r (-1: none). Labels are numbers; which are excluded and how they are renamed is unknown."""
import types
import numpy as rnp
import z3
from pyvc import *
from symnp import fresh, lazy, dt_of, SArr, as_arr
from loader import Loader
from harness import Harness

F = "mass/off/experiment_state.py:"
LOAD = Loader()
I, B = z3.IntSort(), z3.BoolSort()


class World:
    def __init__(self, c):
        f = lambda nm, *s: z3.Function(c.fname(nm), *s)
        self.LAB, self.EXC, self.REN, self.T = f("label", I, I), f("excluded", I, B), f("renamed", I, I), f("T", I, I)
        self.nl = c.int("nlabels", lo=0)
        c.axiom(forall(lambda i, j: Implies(And(i >= 0, i <= j, j < self.nl), SNum(self.T(i.e)) <= SNum(self.T(j.e))), 2,
                       pats=lambda i, j: [(SNum(self.T(i.e)), SNum(self.T(j.e)))]))
        self.lab = c.int("lab")
        self.r = c.int("r", lo=0)
    def label(self, i): return SNum(self.LAB(num(i).e))
    def excl(self, x): return SBool(self.EXC(num(x).e))
    def ren(self, x): return SNum(self.REN(num(x).e))
    def t(self, i): return SNum(self.T(num(i).e))
    def mine(self, i): return And(Not(self.excl(self.label(i))), self.ren(self.label(i)) == self.lab)


def ent(cnt, start, stop, islist): return types.SimpleNamespace(cnt=num(cnt), start=num(start), stop=num(stop), islist=islist)


class Val(Ghost):
    """the value stored for a label: number of its intervals but the last that contain r; the last interval; a list?"""
    def __init__(self, w, e): self.w, self.e = w, e
    def _isinstance_(self, ts): return ite(self.e.islist, bool(list in ts), bool(slice in ts)) if not isinstance(self.e.islist, bool) else bool((list if self.e.islist else slice) in ts)
    @property
    def start(self): ctx().ensure("a single slice is used as such", Not(self.e.islist)); return self.e.start
    @property
    def stop(self): ctx().ensure("a single slice is used as such", Not(self.e.islist)); return self.e.stop

    def last(self, k):
        ctx().ensure("a list of slices is used as such", sbool(self.e.islist))
        ctx().ensure("only the latest slice of a repeated state is touched", sbool(k == -1))
    def __getitem__(self, k): self.last(k); return slice(self.e.start, self.e.stop)

    def __setitem__(self, k, s):
        self.last(k)
        self.w.d.put(ent(self.e.cnt, s.start, s.stop, True), self)

    def joined(self, s, order=True):
        return ent(self.e.cnt + ite(And(self.e.start <= self.w.r, self.w.r < self.e.stop), 1, 0), s.start, s.stop, True)

    def __add__(self, o):
        ctx().ensure("a list of slices is used as such", sbool(self.e.islist))
        ctx().ensure("one interval is added", sbool(isinstance(o, list) and len(o) == 1))
        ctx().ensure("intervals of a repeated label in time order", num(o[0].start) >= self.e.stop)
        return Val(self.w, self.joined(o[0]))

    def append(self, s):
        ctx().ensure("intervals of a repeated label in time order", num(s.start) >= self.e.stop)
        self.w.d.put(self.joined(s), self)
    def slen(self): ctx().ensure("a list of slices is used as such", sbool(self.e.islist)); n = ctx().int("len", lo=1); return n


class Foreign(Val):
    """some other label's value: its content does not matter here (lab is arbitrary)"""
    def last(self, k): ctx().ensure("only the latest slice of a repeated state is touched", sbool(k == -1))
    def __setitem__(self, k, s): self.last(k)
    def __add__(self, o): return self
    def append(self, s): pass


class Dict(Ghost):
    def __init__(self, w, present, e, nonempty): self.w, self.present, self.e, self.nonempty = w, sbool(present), e, sbool(nonempty); w.d = self
    def contains(self, k):
        if bool(num(k) == self.w.lab):
            return self.present
        return ctx().bool("other_present")
    def __getitem__(self, k):
        if bool(num(k) == self.w.lab):
            ctx().ensure("an existing label is looked up", self.present)
            return Val(self.w, self.e)
        return Foreign(self.w, ent(0, 0, 0, ctx().bool("other_list")))
    def get(self, k, d=None): return self[k] if bool(self.contains(k)) else d

    def put(self, e, v=None):
        self.e, self.present, self.nonempty = e, sbool(True), sbool(True)

    def __setitem__(self, k, v):
        self.nonempty = sbool(True)
        if isinstance(v, list):
            first = v[0]
            if isinstance(first, Foreign):
                v = first
            elif isinstance(first, slice):
                a = Val(self.w, ent(0, first.start, first.stop, False))
                for s in v[1:]:
                    a = Val(self.w, a.joined(s))
                v = a
            else:
                ctx().ensure("a new list holds the earlier slice and the new one", And(Not(first.e.islist), sbool(len(v) == 2)))
                if bool(num(k) == self.w.lab):
                    ctx().ensure("intervals of a repeated label in time order", num(v[1].start) >= first.e.stop)
                v = Val(self.w, first.joined(v[1]))
        if bool(num(k) == self.w.lab):
            if isinstance(v, slice):
                v = Val(self.w, ent(0, v.start, v.stop, False))
            ctx().ensure("a label's value never becomes another label's", sbool(not isinstance(v, Foreign)))
            ctx().ensure("intervals run forward", v.e.start <= v.e.stop)
            self.put(v.e)
    def slen(self): n = ctx().int("nkeys", lo=0); ctx().assume(Iff(n > 0, self.nonempty)); return n
    def keys(self): return self

    def members(self):
        """number of intervals of lab that contain r"""
        w, e = self.w, self.e
        return ite(self.present, e.cnt + ite(And(e.start <= w.r, w.r < e.stop), 1, 0), 0)

    def havoc(self, c, tag):
        self.present, self.nonempty = c.bool(tag + "_present"), c.bool(tag + "_nonempty")
        self.e = ent(c.int(tag + "_cnt", lo=0), c.int(tag + "_start"), c.int(tag + "_stop"), c.bool(tag + "_list"))


class Renames(Ghost):
    def __init__(self, w): self.w = w
    def get(self, k, d=None):
        ctx().ensure("a label without alias stands for itself", num(d) == num(k))
        return self.w.ren(k)


class Labels(Ghost):
    def __init__(self, w): self.w = w
    def contains(self, k): return Not(self.w.excl(k))


class AllLabels(Ghost):
    def __init__(self, w): self.w = w
    def slen(self): return self.w.nl
    def __getitem__(self, k):
        w = self.w
        if isinstance(k, slice):
            lo = num(0 if k.start is None else k.start)
            ctx().ensure("labels taken from the first new one on", And(sbool(k.stop is None and k.step is None), lo >= 0, lo <= w.nl))
            return SSeq(w.nl - lo, lambda j: w.label(lo + num(j)))
        k = num(k)
        ctx().ensure("label number in range", And(k >= 0, k < w.nl))
        return w.label(k)


def coherent(w, d, spec, nl, nrec):
    """the dictionary is that of the first nl state changes and nrec records"""
    e = d.e
    return [("intervals", Implies(d.present, And(d.nonempty, e.start <= e.stop, e.stop <= nrec, Implies(Not(sbool(e.islist)), e.cnt == 0)))),
            ("members", d.members() == ite(w.r < nrec, spec, 0)), ("no later record", Implies(And(d.present, w.r >= nrec), e.cnt == 0)),
            ("not empty", Implies(And(nl > 0, Not(w.excl(w.label(nl - 1)))), d.nonempty)),
            ("the active state's latest interval extends to the last record", Implies(And(nl > 0, w.mine(nl - 1)), And(d.present, e.stop == nrec))),
            ("earlier intervals end before the latest begins", Implies(And(d.present, e.cnt > 0), w.r < e.start))]


def statesof(c, update):
    m = LOAD.load("mass.off.experiment_state")
    w = World(c)
    n = c.int("n_new", lo=0)
    U = fresh(c, "unixnanos", n, rnp.int64)
    u = U.snap()
    c.axiom(forall(lambda i, j: Implies(And(i >= 0, i <= j, j < n), u(i) <= u(j)), 2, pats=lambda i, j: [(u(i), u(j))]))
    i0l, i0u = (c.int("i0_labels", lo=1), c.int("i0_records", lo=0)) if update else (num(0), num(0))
    c.assume(i0l <= w.nl)
    Uold = z3.Function(c.fname("Uold"), I, I)
    when = ite(w.r < i0u, SNum(Uold(w.r.e)), u(w.r - i0u))
    act = c.int("act", lo=-1)
    c.axiom(act < w.nl)
    c.axiom(forall(lambda j: Implies(And(j >= 0, j < w.nl), Iff(j <= act, w.t(j) <= when)), pats=lambda j: w.t(j)))
    here = w.r < i0u + n        # r is one of the records so far (else: in no interval yet)
    spec = ite(And(act >= 0, w.mine(act), here), 1, 0)

    class S(m.ExperimentStateFile):
        def __init__(s): pass
    s = S()
    s.allLabels, s.unaliasedLabels, s.labelAliasesDict = AllLabels(w), Labels(w), Renames(w)
    s.unixnanos = lazy((w.nl,), lambda i: w.t(i), dt_of(rnp.int64))
    s._preventAliasState, s.excludeStates, s.parse_start = False, [], num(1)
    last = i0l - 1
    d = None
    if update:
        d = Dict(w, c.bool("present"), ent(c.int("cnt", lo=0), c.int("start", lo=0), c.int("stop", lo=0), c.bool("islist")), c.bool("nonempty"))
        e = d.e
        # the old dictionary is right for the old states and records; time order: old records are earlier than the
        # new states, new records not earlier than the old states
        c.assume(Implies(w.r < i0u, act < i0l))
        c.assume(Implies(And(w.r >= i0u, here), act >= last))
        c.assume(And(*[x for _, x in coherent(w, d, spec, i0l, i0u)]))

    def mk(*a):
        c.ensure("a new dictionary only when none was given", sbool(not a and not update))
        return Dict(w, False, ent(0, 0, 0, False), False)
    m.collections = types.SimpleNamespace(OrderedDict=mk)
    m.dict = mk
    for nm in ("ndarray",):
        pass
    w.n, w.i0l, w.i0u, w.act, w.spec, w.total = n, i0l, i0u, act, spec, i0u + n
    c.w = w
    out = s.calcStatesDict(U, d, i0l, i0u) if update else s.calcStatesDict(U)
    c.ensure("the dictionary of states is returned", sbool(isinstance(out, Dict)))
    c.ensure("a record is in exactly one interval of its active state's label, in none of any other", out.members() == spec)
    # what the next update relies on
    for nm, x in coherent(w, out, spec, w.nl, w.total):
        c.ensure("next update: " + nm, x)
    if update:
        c.cover("update")


def loop_inv(e):
    c = ctx()
    w, d = c.w, c.w.d
    # the state that is active for r is among the ones handled (old ones, then new ones in order)
    k = w.i0l + num(e._k)
    inds = lambda j: e.inds.at(j)
    nxt = ite(num(e._k) < e._n, num(inds(e._k)), w.total) if hasattr(e.inds, "at") else w.total
    return [("members so far", d.members() == ite(And(w.act < k, w.act >= 0), w.spec, 0)),
            ("value", Implies(d.present, And(d.nonempty, d.e.start <= d.e.stop, d.e.stop <= nxt, Implies(Not(sbool(d.e.islist)), d.e.cnt == 0)))),
            ("earlier intervals", And(Implies(And(d.present, d.e.cnt > 0), w.r < d.e.start), Implies(And(d.present, w.r >= w.total), d.e.cnt == 0))),
            ("latest", And(Implies(And(k > 0, w.mine(k - 1)), And(d.present, d.e.stop == nxt)), Implies(And(k > 0, Not(w.excl(w.label(k - 1)))), d.nonempty))),
            ("dictionary", sbool(e.statesDict is d))]


LOOP = LoopSpec(inv=loop_inv, types={}, havoc=lambda c, e: c.w.d.havoc(c, "states"), handles=("statesDict",),
                dead=("s", "v", "aliasedLabel", "label", "i", "msg", "s2", "k", "last_key", "s_"))

# ------------------------------------------------------------------ the state file
class Tok(Ghost):
    """a field of a line"""
    def __init__(self, val): self.val = num(val)
    def strip(self, *a): return self
    def _as_int_(self): return self.val


class LabelTok(Ghost):
    def __init__(self, val): self.val = num(val)
    def strip(self, *a): return self


class Line(Ghost):
    def __init__(self, w, j): self.w, self.j = w, num(j)

    def split(self, sep=None, *a):
        ctx().ensure("fields separated by a comma", sbool(sep == ","))
        ctx().ensure("only state lines are split", self.j >= 0)
        return Tok(self.w.FT(self.j)), LabelTok(self.w.FL(self.j))

    def __getitem__(self, k):
        c = ctx()
        c.ensure("header looked at", And(self.j == -1, sbool(k == 0)))
        return "#"


class LabList(Ghost):
    """list of labels: length, element function"""
    def __init__(self, n, f): self.n, self.f = num(n), f
    def slen(self): return self.n
    def elem(self, k): return self.f(num(k))
    def append(self, x):
        n, f, v = self.n, self.f, num(getattr(x, "val", x))
        self.f, self.n = (lambda k: ite(num(k) == n, v, f(num(k)))), n + 1

    def __add__(self, o):
        n, f = self.n, self.f
        if isinstance(o, list):
            r = LabList(n, f)
            for x in o:
                r.append(x)
            return r
        return LabList(n + o.n, lambda k: ite(num(k) < n, f(num(k)), o.f(num(k) - n)))
    __iadd__ = __add__
    def extend(self, o): r = self + o; self.n, self.f = r.n, r.f


class File:
    """the state file: all bytes from the offset sought to on; `tell` after reading is its end"""
    def __init__(self, w): self.w, self.pos = w, None
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def seek(self, p, *a): self.pos = p
    def close(self): pass

    def readlines(self):
        w, c = self.w, ctx()
        c.ensure("reading starts after what was already parsed", sbool(self.pos is not None) if self.pos is None else num(self.pos) == w.start)
        self.pos = w.end
        return SSeq(w.nnew + w.hdr, lambda k: Line(w, num(k) - w.hdr))
    def tell(self):
        ctx().ensure("position taken after reading", sbool(self.pos is self.w.end)); return self.w.end


def toarr(x):
    if isinstance(x, LabList):
        return lazy((x.n,), lambda k: num(x.f(num(k))), dt_of(rnp.int64))
    return type(x)(toarr(y) for y in x) if isinstance(x, (list, tuple)) else x


class NpL:
    """numpy, with lists of times as arrays"""
    def __init__(s, np): s.np = getattr(np, "np", np)

    def __getattr__(s, k):
        f = getattr(s.np, k)
        if k in ("array", "asarray"):
            return lambda x, *a, **kw: toarr(x) if isinstance(x, LabList) else f(x, *a, **kw)
        if k in ("hstack", "concatenate", "append"):
            return lambda *a, **kw: f(*[toarr(x) for x in a], **kw)
        return f


def parse(first):
    def h(c):
        m = LOAD.load("mass.off.experiment_state")
        w = types.SimpleNamespace()
        ft, fl, ol, ot = (z3.Function(c.fname(x), I, I) for x in ("line_t", "line_l", "old_l", "old_t"))
        w.FT, w.FL = (lambda j: SNum(ft(num(j).e))), (lambda j: SNum(fl(num(j).e)))
        w.nnew, w.end, w.hdr = c.int("nlines", lo=0), c.int("end", lo=1), 1 if first else 0
        w.start = 0 if first else c.int("start", lo=1)
        nold = num(0) if first else c.int("nold", lo=0)

        class S(m.ExperimentStateFile):
            def __init__(s): pass
            def applyExcludesToLabels(s, labels): s.done = labels; return "unaliased"
        s = S()
        m.np = NpL(m.np)
        s.filename = "f"
        s.parse_start, s.allLabels = w.start, LabList(nold, lambda k: SNum(ol(num(k).e)))
        s.unixnanos = lazy((nold,), lambda k: SNum(ot(num(k).e)), dt_of(rnp.int64))
        s.unaliasedLabels, s.done = "before", None
        m.open = lambda *a, **k: File(w)
        c.w = w
        try:
            s.parse()
        except PathDone:
            raise
        except Exception:
            if first:
                c.ensure("only a file without states is refused", w.nnew == 0)
                return
            raise
        p = c.int("p", lo=0)
        L, U = s.allLabels, s.unixnanos
        c.ensure("old labels kept, one new label per line", L.slen() == nold + w.nnew)
        c.ensure("old times kept, one new time per line", num(U.shape[0]) == nold + w.nnew)
        c.assume(p < nold + w.nnew)
        c.ensure("labels in file order", L.elem(p) == ite(p < nold, SNum(ol(p.e)), w.FL(p - nold)))
        c.ensure("times in file order", num(U.at(p)) == ite(p < nold, SNum(ot(p.e)), w.FT(p - nold)))
        c.ensure("times stay whole numbers", sbool("int" in repr(U._dt)))
        c.ensure("next parse starts at the end of this one", Or(w.nnew == 0, num(s.parse_start) == w.end))
        c.ensure("list of labels recomputed from all labels", Or(w.nnew == 0, sbool(s.done is L and s.unaliasedLabels == "unaliased")))
    return h


def parse_inv(e):
    w = ctx().w
    j = ctx().int("q")
    n = num(e._k)
    L, U = e.labels, e.unixnanos
    L, U = (LabList(0, lambda k: num(0)) if isinstance(x, list) else x for x in (L, U))
    return [("one label per line", L.slen() == n), ("one time per line", U.slen() == n),
            ("labels", forall(lambda q: Implies(And(q >= 0, q < n), L.elem(q) == w.FL(q)), pats=lambda q: w.FL(q))),
            ("times", forall(lambda q: Implies(And(q >= 0, q < n), num(U.elem(q)) == w.FT(q)), pats=lambda q: w.FT(q)))]


def freshlist(c, e, nm="l"):
    f = z3.Function(c.fname("list_" + nm), I, I)
    return LabList(c.int("len_" + nm, lo=0), lambda k: SNum(f(num(k).e)))


PARSE = LoopSpec(inv=parse_inv, types={"labels": freshlist, "unixnanos": freshlist},
                 dead=("a", "b", "unixnano", "label", "line"))


class Uniq(Ghost):
    """a list being filled: membership, element at position, length"""
    def __init__(self, n, ins, seq): self.n, self.ins, self.seq = num(n), ins, seq
    def contains(self, x): return SBool(z3.Select(self.ins, num(x).e))
    def slen(self): return self.n
    def elem(self, k): return SNum(z3.Select(self.seq, num(k).e))
    def append(self, x):
        self.ins, self.seq, self.n = z3.Store(self.ins, num(x).e, z3.BoolVal(True)), z3.Store(self.seq, self.n.e, num(x).e), self.n + 1
    @staticmethod
    def fresh(c, e, nm="u"): return Uniq(c.int("n_" + nm, lo=0), z3.Array(c.fname(nm), I, B), z3.Array(c.fname(nm + "seq"), I, I))
    @staticmethod
    def empty(): return Uniq(0, z3.K(I, z3.BoolVal(False)), z3.K(I, z3.IntVal(-1)))


class Excl(Ghost):
    def __init__(self, w): self.w = w
    def contains(self, x): return self.w.excl(x)
    def __eq__(self, o): return False
    def __ne__(self, o): return True
    __hash__ = None


def excludes(auto):
    def h(c):
        m = LOAD.load("mass.off.experiment_state")
        w = World(c)
        c.w = w
        w.FST = z3.Function(c.fname("first"), I, I)
        w.first = lambda x: SNum(w.FST(num(x).e))
        c.axiom(forall(lambda x: And(w.first(x) >= 0, w.first(x) <= w.nl, Implies(w.first(x) < w.nl, w.label(w.first(x)) == x)), pats=lambda x: w.first(x)))
        c.axiom(forall(lambda j: Implies(And(j >= 0, j < w.nl), And(w.first(w.label(j)) <= j)), pats=lambda j: w.label(j)))
        ex = Excl(w)

        class S(m.ExperimentStateFile):
            def __init__(s): pass
            def calculateAutoExcludes(s): return ex
        s = S()
        s.excludeStates = "auto" if auto else ex
        s.allLabels = SSeq(w.nl, lambda j: w.label(j))
        r = s.applyExcludesToLabels(s.allLabels)
        R = Uniq.empty() if isinstance(r, list) else r
        x, i, j = c.int("x"), c.int("i", lo=0), c.int("j")
        c.ensure("exactly the labels seen and not excluded", Iff(R.contains(x), And(w.first(x) < w.nl, Not(w.excl(x)))))
        c.assume(And(i < j, j < R.slen()))
        c.ensure("in order of first appearance, each once", And(w.first(R.elem(i)) < w.first(R.elem(j)), R.contains(R.elem(i)), R.contains(R.elem(j))))
        if auto:
            c.ensure("automatic exclusion is decided anew when more labels are known", sbool(isinstance(s.excludeStates, str) and s.excludeStates == "auto"))
    return h


def excl_inv(e):
    w = ctx().w
    R = Uniq.empty() if isinstance(e.r, list) else e.r
    k = num(e._k)
    return [("members", forall(lambda x: Iff(R.contains(x), And(w.first(x) < k, Not(w.excl(x)))), pats=lambda x: [w.first(x), R.contains(x)])),
            ("listed", forall(lambda i: Implies(And(i >= 0, i < R.slen()), R.contains(R.elem(i))), pats=lambda i: R.elem(i))),
            ("order", forall(lambda i, j: Implies(And(i >= 0, i < j, j < R.slen()), w.first(R.elem(i)) < w.first(R.elem(j))), 2,
                             pats=lambda i, j: [(R.elem(i), R.elem(j))]))]


EXCL = LoopSpec(inv=excl_inv, types={"r": Uniq.fresh}, dead=("label",))


class LSet(Ghost):
    def __init__(self, gone=()): self.gone = gone
    def __sub__(self, o): return LSet(tuple(o))
    def difference(self, o): return LSet(tuple(o))

    def slen(self):
        n = ctx().int("nset", lo=0)
        self.c_n = n
        LSet.asked = (set(self.gone), n)
        return n
    def _as_bool_(self): return self.slen() > 0
    def __bool__(self): return bool(self.slen() > 0)


def auto(c):
    m = LOAD.load("mass.off.experiment_state")

    class S(m.ExperimentStateFile):
        def __init__(s): pass
    s = S()
    s.allLabels = "all"
    LSet.asked = None
    m.set = lambda x=(): LSet() if isinstance(x, str) and x == "all" else set(x)
    try:
        out = s.calculateAutoExcludes()
    finally:
        del m.set
    c.ensure("decided by the labels that are not START, STOP, END or IGNORE", sbool(LSet.asked is not None and LSet.asked[0] == {"START", "STOP", "END", "IGNORE"}))
    c.ensure("without other labels only IGNORE is excluded, else all four",
             ite(LSet.asked[1] == 0, sbool(sorted(out) == ["IGNORE"]), sbool(sorted(out) == ["END", "IGNORE", "START", "STOP"])))


# ------------------------------------------------------------------ channels
class Lst(Ghost):
    """list of slices: start and stop by position"""
    def __init__(self, n, a, b): self.n, self.a, self.b = num(n), a, b
    def slen(self): return self.n
    def elem(self, k): return slice(SNum(z3.Select(self.a, num(k).e)), SNum(z3.Select(self.b, num(k).e)))
    def append(self, s): self.a, self.b, self.n = z3.Store(self.a, self.n.e, num(s.start).e), z3.Store(self.b, self.n.e, num(s.stop).e), self.n + 1
    def extend(self, o): raise Unsupported("extend")
    @staticmethod
    def fresh(c, e, nm="s"): return Lst(c.int("n_" + nm, lo=0), z3.Array(c.fname(nm + "a"), I, I), z3.Array(c.fname(nm + "b"), I, I))
    @staticmethod
    def of(x):
        if isinstance(x, list):
            r = Lst(0, z3.K(I, z3.IntVal(0)), z3.K(I, z3.IntVal(0)))
            for s in x:
                r.append(s)
            return r
        return x


class Stored(Ghost):
    """the value of one label: a slice, or a list of slices"""
    def __init__(self, w, s): self.w, self.s = w, num(s)
    def _isinstance_(self, ts): return bool(slice in ts) if bool(self.w.islice(self.s)) else bool(list in ts)
    def slen(self): return self.w.len(self.s)
    def elem(self, j): return slice(self.w.st(self.s, j), self.w.en(self.s, j))
    @property
    def start(self): return self.w.st(self.s, 0)
    @property
    def stop(self): return self.w.en(self.s, 0)


class SDict(Ghost):
    def __init__(self, w): self.w = w
    def __getitem__(self, k): return Stored(self.w, k)
    def keys(self): return SSeq(self.w.ns, lambda k: num(k))
    def items(self): return SSeq(self.w.ns, lambda k: (num(k), Stored(self.w, k)))
    def values(self): return SSeq(self.w.ns, lambda k: Stored(self.w, k))
    def slen(self): return self.w.ns
    def elem(self, k): return num(k)


def dictworld(c):
    w = types.SimpleNamespace()
    sl, ln, st, en, of = z3.Function(c.fname("isslice"), I, B), z3.Function(c.fname("len"), I, I), z3.Function(c.fname("st"), I, I, I), z3.Function(c.fname("en"), I, I, I), z3.Function(c.fname("off"), I, I)
    w.ns = c.int("nstates", lo=0)
    w.islice, w.len = (lambda s: SBool(sl(num(s).e))), (lambda s: SNum(ln(num(s).e)))
    w.st, w.en = (lambda s, j: SNum(st(num(s).e, num(j).e))), (lambda s, j: SNum(en(num(s).e, num(j).e)))
    w.off = lambda s: SNum(of(num(s).e))
    c.axiom(forall(lambda s: And(w.len(s) >= 1, Implies(w.islice(s), w.len(s) == 1)), pats=lambda s: w.len(s)))
    c.axiom(w.off(0) == 0)
    c.axiom(forall(lambda s: Implies(s >= 0, w.off(s + 1) == w.off(s) + w.len(s)), pats=lambda s: [w.len(s), w.off(s + 1)]))
    c.w = w
    return w


def indices(c):
    m = LOAD.load("mass.off.channels")
    w = dictworld(c)

    class Ch(m.Channel):
        def __init__(s): pass
        statesDict = SDict(w)
        def __len__(s): return 0
    m.util = types.SimpleNamespace(iterstates=lambda s: s)
    w.s, w.j = c.int("s", lo=0), c.int("j", lo=0)
    out = Lst.of(Ch().getStatesIndicies(SSeq(w.ns, lambda k: num(k))))
    c.ensure("as many slices as the selected labels have", out.slen() == w.off(w.ns))
    c.assume(And(w.s < w.ns, w.j < w.len(w.s)))
    c.ensure("every selected label's slices, in order", placed(w, out))


def placed(w, L):
    p = w.off(w.s) + w.j
    e = L.elem(p)
    return And(e.start == w.st(w.s, w.j), e.stop == w.en(w.s, w.j))


def ind_inv(inner):
    def inv(e):
        w = ctx().w
        L = Lst.of(e.inds)
        if inner:
            k, n = ctx().k_outer, num(e._k)
            return [("size", L.slen() == w.off(k) + n),
                    ("placed", Implies(And(w.j < w.len(w.s), Or(w.s < k, And(w.s == k, w.j < n))), placed(w, L)))]
        k = ctx().k_outer = num(e._k)
        return [("size", And(L.slen() == w.off(k), w.off(k) >= 0)), ("before", Implies(And(w.j < w.len(w.s), w.s < k), And(placed(w, L), w.off(w.s) + w.j < w.off(k))))]
    return inv


IND = {("getStatesIndicies", 0): LoopSpec(inv=ind_inv(False), types={"inds": Lst.fresh}, dead=("v", "vv", "state")),
       ("getStatesIndicies", 1): LoopSpec(inv=ind_inv(True), types={"inds": Lst.fresh}, dead=("vv",))}


def indices_all(c):
    m = LOAD.load("mass.off.channels")
    n = c.int("nrec", lo=0)

    class Ch(m.Channel):
        def __init__(s): pass
        def slen(s): return n
    m.len = lambda x: n if isinstance(x, Ch) else len(x)
    try:
        out = Ch().getStatesIndicies(None)
    finally:
        del m.len
    c.ensure("no selection: all records once", And(sbool(len(out) == 1), num(out[0].start) == 0, num(out[0].stop) == n, sbool(out[0].step in (None, 1))))


def statesdict(c):
    m = LOAD.load("mass.off.channels")
    cached = c.choose("cached")
    calls = []

    class Esf:
        def calcStatesDict(s, *a, **k): calls.append((a, k)); return "computed"

    class Ch(m.Channel):
        def __init__(s): pass
        def getAttr(s, attr, inds=None, *a, **k):
            c.ensure("times of all records", sbool(attr == "unixnano" and isinstance(inds, m.NoCutInds)))
            return "times"
    ch = Ch()
    ch.experimentStateFile, ch._statesDict = Esf(), "kept" if cached else None
    out = [ch.statesDict, ch.statesDict]
    c.ensure("computed once from all records, then kept", sbool(out == (["kept"] * 2 if cached else ["computed"] * 2) and calls == ([] if cached else [(("times",), {})])))


class ChanState(Ghost):
    """per channel: records known before and after, updated?, states forgotten?, reported number"""
    def __init__(self, c, w): self.w = w; self.reset(c)
    def reset(self, c, tag="g"): self.upd, self.none, self.rep = (z3.Array(c.fname(tag + x), I, s) for x, s in (("upd", B), ("none", B), ("rep", I)))


class Chan(Ghost):
    def __init__(self, w, j): object.__setattr__(self, "w", w); object.__setattr__(self, "j", num(j))
    @property
    def offFile(self): return self
    @property
    def channum(self): return self
    def _updateMmap(self, *a):
        ctx().ensure("the file is updated as far as it goes", sbool(not a))
        ctx().ensure("state file read before the record files", sbool(self.w.parsed == 1))
        g = self.w.g; g.upd = z3.Store(g.upd, self.j.e, z3.BoolVal(True))
    def slen(self):
        u = SBool(z3.Select(self.w.g.upd, self.j.e))
        return ite(u, self.w.newn(self.j), self.w.oldn(self.j))
    def __setattr__(self, k, v):
        if k == "_statesDict":
            g = self.w.g
            g.none = z3.Store(g.none, self.j.e, z3.BoolVal(v is None))
            return
        raise Unsupported("channel attribute " + k)
    def __getattr__(self, k):
        if k == "markedBadBool":
            return SBool(self.w.bad(self.j.e))
        raise Unsupported("channel attribute " + k)


class Report(Ghost):
    w = None
    def __init__(self, *a): pass
    def __setitem__(self, k, v): g = Report.w.g; g.rep = z3.Store(g.rep, k.j.e, num(v).e)


def refresh(c):
    m = LOAD.load("mass.off.channels")
    w = types.SimpleNamespace(parsed=0)
    on, nn = z3.Function(c.fname("oldn"), I, I), z3.Function(c.fname("newn"), I, I)
    w.oldn, w.newn, w.bad = (lambda j: SNum(on(num(j).e))), (lambda j: SNum(nn(num(j).e))), z3.Function(c.fname("bad"), I, B)
    w.nall, w.ngood = c.int("nall", lo=1), c.int("ngood", lo=1)
    gd, rk = z3.Function(c.fname("good_at"), I, I), z3.Function(c.fname("rank"), I, I)
    w.at, w.rank = (lambda k: SNum(gd(num(k).e))), (lambda j: SNum(rk(num(j).e)))
    # the good channels, in order: at(k) enumerates exactly them
    c.axiom(forall(lambda k: Implies(And(k >= 0, k < w.ngood), And(w.at(k) >= 0, w.at(k) < w.nall, Not(SBool(w.bad(w.at(k).e))), w.rank(w.at(k)) == k)), pats=lambda k: w.at(k)))
    c.axiom(forall(lambda j: Implies(And(j >= 0, j < w.nall, Not(SBool(w.bad(j.e)))), And(w.rank(j) >= 0, w.rank(j) < w.ngood, w.at(w.rank(j)) == j)), pats=lambda j: w.rank(j)))
    w.g = ChanState(c, w)
    c.axiom(forall(lambda j: Not(SBool(z3.Select(w.g.upd, j.e)))))
    c.w, Report.w = w, w
    lab0, lab1 = c.int("labels0", lo=0), c.int("labels1", lo=0)

    class Esf:
        @property
        def labels(s): return SSeq(lab1 if w.parsed else lab0, lambda k: num(k))
        @property
        def allLabels(s): return SSeq(c.int("all", lo=1), lambda k: num(k))
        def parse(s): w.parsed += 1
    class G:
        def __init__(s): s.all_ = False
        def __getattr__(s, k):
            f = getattr(m.ChannelGroup, k)
            return types.MethodType(f, s) if callable(f) else f
        def firstGoodChannel(s): return Chan(w, w.at(0))
        def includeBad(s, x=True):
            return types.SimpleNamespace(__enter__=None) if False else Inc(s)
        def values(s): return SSeq(w.nall, lambda k: Chan(w, k)) if s.all_ else SSeq(w.ngood, lambda k: Chan(w, w.at(k)))

    class Inc:
        def __init__(s, g): s.g = g
        def __enter__(s): s.g.all_ = True
        def __exit__(s, *a): s.g.all_ = False
    g = G()
    g.experimentStateFile = Esf()
    m.collections = types.SimpleNamespace(OrderedDict=Report)
    out = g.refreshFromFiles()
    j = c.int("ch", lo=0)
    c.assume(j < w.nall)
    sel = lambda a: SBool(z3.Select(a, j.e))
    c.ensure("no channel keeps an assignment older than the files", sel(w.g.none))
    c.ensure("good channels see all records", Or(SBool(w.bad(j.e)), sel(w.g.upd)))
    c.ensure("bad channels are left alone", Or(Not(SBool(w.bad(j.e))), Not(sel(w.g.upd))))
    c.ensure("number of new records per channel", Or(SBool(w.bad(j.e)), SNum(z3.Select(w.g.rep, j.e)) == w.newn(j) - w.oldn(j)))
    c.ensure("number of new labels", And(num(out[0]) == lab1 - lab0, sbool(w.parsed == 1)))


def ref_inv(second):
    def inv(e):
        w = ctx().w
        g, k = w.g, num(e._k)
        s = lambda a, j: SBool(z3.Select(a, j.e))
        P = lambda f, pat: forall(lambda j: Implies(And(j >= 0, j < w.nall), f(j)), pats=pat)
        done = w.ngood if second else k
        out = [("updated", P(lambda j: Iff(s(g.upd, j), And(Not(SBool(w.bad(j.e))), w.rank(j) < done)), lambda j: [s(g.upd, j), w.rank(j)])),
               ("reported", P(lambda j: Implies(And(Not(SBool(w.bad(j.e))), w.rank(j) < done), SNum(z3.Select(g.rep, j.e)) == w.newn(j) - w.oldn(j)),
                              lambda j: SNum(z3.Select(g.rep, j.e))))]
        if second:
            out.append(("forgotten", forall(lambda j: Implies(And(j >= 0, j < k), s(g.none, j)), pats=lambda j: s(g.none, j))))
        return out
    return inv


RH = lambda c, e: c.w.g.reset(c)
REF = {("refreshFromFiles", 0): LoopSpec(inv=ref_inv(False), havoc=RH, dead=("ds", "i0_unixnanos"), types={"n_new_pulses_dict": lambda c, e: Report()}),
       ("refreshFromFiles", 1): LoopSpec(inv=ref_inv(True), havoc=RH, dead=("ds",))}


# ------------------------------------------------------------------ TES groups: the categorical cut "state"
class Np:
    def __init__(s, np): s.np = getattr(np, "np", np)
    def __getattr__(s, k): return getattr(s.np, k)
    def zeros(s, n, dtype=None):
        ctx().ensure("codes of at least 8 bits", sbool(rnp.dtype(dtype).kind in "iu"))
        ctx().note_assumption("fewer labels than the integer type of the codes can hold")
        return s.np.zeros(n, dtype=rnp.int64)


def cutstates(c):
    m = LOAD.load("mass.core.channel")
    w = dictworld(c)
    n = c.int("nPulses", lo=1)
    w.r, w.s, w.j = c.int("r", lo=0), c.int("s"), c.int("j")
    c.assume(w.r < n)
    inside = lambda s, j: And(w.st(s, j) <= w.r, w.r < w.en(s, j))
    w.inside = inside
    # by calcStatesDict's contract: r is in at most one interval (number j of label s; s == -1: in none)
    c.assume(And(w.s >= -1, w.s < w.ns, Implies(w.s >= 0, And(w.j >= 0, w.j < w.len(w.s), inside(w.s, w.j)))))
    c.axiom(forall(lambda s, j: Implies(And(s >= 0, s < w.ns, j >= 0, j < w.len(s)), And(0 <= w.st(s, j), w.st(s, j) <= w.en(s, j), w.en(s, j) <= n)), 2,
                   pats=lambda s, j: w.st(s, j)))
    c.axiom(forall(lambda s, j: Implies(And(s >= 0, s < w.ns, j >= 0, j < w.len(s), inside(s, j)), And(s == w.s, j == w.j)), 2, pats=lambda s, j: w.st(s, j)))
    t = fresh(c, "ts", n, rnp.float64)
    got = []

    class Esf:
        def calcStatesDict(s, nano, *a):
            c.ensure("times of all records in nanoseconds", And(num(nano.shape[0]) == n, num(nano.at(w.r)) == num(t.at(w.r)) * 1000000000, sbool(not a)))
            return SDict(w)

    class Cuts:
        def cut(s, name, codes): got.append((name, codes))

    class D(m.MicrocalDataSet):
        def __init__(s): pass
    m.np = Np(m.np)
    d = D()
    d.tes_group = types.SimpleNamespace(experimentStateFile=Esf())
    d.p_timestamp, d.nPulses, d.cuts = t, n, Cuts()
    d._MicrocalDataSet__parse_expt_states()
    c.ensure("one state cut", sbool(len(got) == 1 and got[0][0] == "state"))
    codes = got[0][1]
    c.ensure("one code per record", num(codes.shape[0]) == n)
    c.ensure("code of the label whose interval holds the record; 0 if none", num(codes.at(w.r)) == w.s + 1)


def cs_inv(inner):
    def inv(e):
        w = ctx().w
        k = num(e._k)
        code = num(e.state_codes.at(w.r))
        if inner:
            o = ctx().k_outer
            return [("code", code == ite(Or(And(w.s >= 0, w.s < o), And(w.s == o, w.j < k)), w.s + 1, 0))]
        ctx().k_outer = k
        return [("code", code == ite(And(w.s >= 0, w.s < k), w.s + 1, 0))]
    return inv


CS = {("__parse_expt_states", 0): LoopSpec(inv=cs_inv(False), dead=("slices", "slice", "id", "state")),
      ("__parse_expt_states", 1): LoopSpec(inv=cs_inv(True), dead=("slice",))}

HARNESSES = [
    Harness("calcStatesDict_new", lambda c: statesof(c, False), functions=[F + "ExperimentStateFile.calcStatesDict"],
            specs={("calcStatesDict", 0): LOOP}),
    Harness("calcStatesDict_update", lambda c: statesof(c, True), functions=[F + "ExperimentStateFile.calcStatesDict", F + "ExperimentStateFile._extendActiveState"],
            specs={("calcStatesDict", 0): LOOP}),
    Harness("parse_first", parse(True), functions=[F + "ExperimentStateFile.parse"], specs={("parse", 0): PARSE}),
    Harness("parse_again", parse(False), functions=[F + "ExperimentStateFile.parse"], specs={("parse", 0): PARSE}),
    Harness("excludes_given", excludes(False), functions=[F + "ExperimentStateFile.applyExcludesToLabels"], specs={("applyExcludesToLabels", 0): EXCL}),
    Harness("excludes_auto", excludes(True), functions=[F + "ExperimentStateFile.applyExcludesToLabels"], specs={("applyExcludesToLabels", 0): EXCL}),
    Harness("auto_excludes", auto, functions=[F + "ExperimentStateFile.calculateAutoExcludes"]),
    Harness("selected_slices", indices, functions=["mass/off/channels.py:Channel.getStatesIndicies"], specs=IND),
    Harness("selected_slices_none", indices_all, functions=["mass/off/channels.py:Channel.getStatesIndicies"]),
    Harness("states_of_channel", statesdict, functions=["mass/off/channels.py:Channel.statesDict"]),
    Harness("refresh", refresh, functions=["mass/off/channels.py:ChannelGroup.refreshFromFiles"], specs=REF),
    Harness("state_cut", cutstates, functions=["mass/core/channel.py:MicrocalDataSet.__parse_expt_states"], specs=CS),
]
