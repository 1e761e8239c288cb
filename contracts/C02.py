from cutlib import *
from harness import Harness

LOAD = Loader()
FILE = "mass/core/cut.py:Cuts."
M32 = 0xFFFFFFFF


def cuts_on(c, name="mask"):
    m, g, s, own = fresh_state(c, LOAD)
    n = c.int("n_pulses", lo=0)
    cu = m.Cuts(n, g)
    old = fresh(c, name, n, rnp.uint32)
    cu._mask = old.copy()
    c.cover("precondition")
    return m, g, s, cu, n, old


def bit_of(s, name):
    """the flag bit of the boolean cut called name (0 if there is none)"""
    b = SBV(z3.BitVecVal(0, 32))
    for i in range(32):
        b = b | ite(And(name != "", s.bn[i] == name), SBV(z3.BitVecVal(1 << i, 32)), SBV(z3.BitVecVal(0, 32)))
    return b


def ensure_bits(c, name, a, b):
    for i in range(32):
        c.ensure(name, Iff(bit(a, i), bit(b, i)))


def all_bits(s):
    return bits_of_rows(s.bn)


def known_bool(s, name):
    return And(name != "", Or(*[s.bn[i] == name for i in range(32)]))


def pulse(c, n, nm="k"):
    k = c.int(nm)
    c.assume(And(k >= 0, k < n))
    return k


def registry_same(c, g, s):
    t = State.of(c, g)
    c.ensure("the registry is unchanged", And(t.used == s.used, *[And(t.bn[i] == s.bn[i], t.bm[i] == s.bm[i]) for i in range(32)]))


def h_cut_name(c):
    m, g, s, cu, n, old = cuts_on(c)
    name = c.name_("cut", nonempty=True)
    w = fresh(c, "requested", n, rnp.dtype(bool))
    known = known_bool(s, name)
    knowncat = exists(lambda r: And(r >= 0, r < s.nc, s.cn(r) == name))
    try:
        cu.cut(name, w)
    except ValueError:
        k = pulse(c, n)
        c.ensure("known cut is accepted", Not(known))
        c.ensure("refused cut changes nothing", cu._mask.at(k) == old.at(k))
        return
    c.ensure("number of pulses kept", num(cu._mask.shape[0]) == n)
    k = pulse(c, n)
    b = bit_of(s, name)
    c.ensure("requested pulses get exactly this mark", Implies(And(known, w.at(k)), cu._mask.at(k) == (old.at(k) | b)))
    c.ensure("other pulses are untouched", Implies(And(known, Not(w.at(k))), cu._mask.at(k) == old.at(k)))
    c.ensure("no boolean mark moves when a categorical cut is set", Implies(Not(known), (cu._mask.at(k) & all_bits(s)) == (old.at(k) & all_bits(s))))
    registry_same(c, g, s)


def h_cut_number(c):
    m, g, s, cu, n, old = cuts_on(c)
    w = fresh(c, "requested", n, rnp.dtype(bool))
    ci = next((j for j in range(-1, 33) if c.choose(f"number {j}")), 40)
    ok = s.bn[ci] != "" if 0 <= ci < 32 else False
    try:
        cu.cut(ci, w)
    except ValueError:
        k = pulse(c, n)
        c.ensure("refused only for unregistered numbers", Not(ok))
        c.ensure("refused cut changes nothing", cu._mask.at(k) == old.at(k))
        return
    c.ensure("unregistered numbers are refused", ok)
    k = pulse(c, n)
    c.ensure("requested pulses get exactly this mark", cu._mask.at(k) == ite(w.at(k), old.at(k) | (1 << ci), old.at(k)))


def mk_clear(nn):
    def h(c):
        m, g, s, cu, n, old = cuts_on(c)
        names = [c.name_(f"cut{i}", nonempty=True) for i in range(nn)]
        known = And(*[known_bool(s, x) for x in names])
        try:
            cu.clear_cut(*names)
        except ValueError:
            k = pulse(c, n)
            c.ensure("refused only for unknown cuts", Not(known))
            c.ensure("refused request changes nothing", cu._mask.at(k) == old.at(k))
            return
        c.ensure("unknown cuts are refused", known)
        k = pulse(c, n)
        b = all_bits(s)
        if nn:
            b = SBV(z3.BitVecVal(0, 32))
            for x in names:
                b = b | bit_of(s, x)
        ensure_bits(c, "clears exactly the named cuts", cu._mask.at(k), old.at(k) & ~b)
        c.ensure("number of pulses kept", num(cu._mask.shape[0]) == n)
        registry_same(c, g, s)
    return h


def mk_good(nn, which):
    def h(c):
        m, g, s, cu, n, old = cuts_on(c)
        names = [c.name_(f"cut{i}", nonempty=True) for i in range(nn)]
        known = And(*[known_bool(s, x) for x in names])
        try:
            r = getattr(cu, which)(*names)
        except ValueError:
            c.ensure("refused only for unknown cuts", Not(known))
            return
        c.ensure("unknown cuts are refused", known)
        c.ensure("one answer per pulse", num(r.shape[0]) == n)
        k = pulse(c, n)
        b = all_bits(s)
        if nn:
            b = SBV(z3.BitVecVal(0, 32))
            for x in names:
                b = b | bit_of(s, x)
        want = (old.at(k) & b) == 0
        c.ensure("good iff no named cut was applied" if which == "good" else "bad iff some named cut was applied",
                 Iff(r.at(k), want if which == "good" else Not(want)))
        c.ensure("a query changes nothing", cu._mask.at(k) == old.at(k))
        registry_same(c, g, s)
    return h


def mk_param(lo, hi, wrap_):
    def h(c):
        m, g, s, cu, n, old = cuts_on(c)
        name = c.name_("cut", nonempty=True)
        c.assume(known_bool(s, name))
        data = fresh(c, "data", n, rnp.float64)
        a = c.real("lo") if lo else None
        b = c.real("hi") if hi else None
        cu.cut_parameter(data, wrap_((a, b)), name)
        k = pulse(c, n)
        out = Or(data.at(k) <= a if lo else False, data.at(k) >= b if hi else False)
        c.ensure("exactly the pulses outside the open range are marked",
                 cu._mask.at(k) == ite(sbool(out), old.at(k) | bit_of(s, name), old.at(k)))
        registry_same(c, g, s)
    return h


def h_param_none(c):
    m, g, s, cu, n, old = cuts_on(c)
    data = fresh(c, "data", n, rnp.float64)
    cu.cut_parameter(data, None, c.name_("cut", nonempty=True))
    k = pulse(c, n)
    c.ensure("no limits, no marks", cu._mask.at(k) == old.at(k))


def h_erase(c):
    """a cut that is unregistered leaves no mark behind in the group's data sets"""
    m, g, s, cu, n, old = cuts_on(c)
    class DS: pass
    ds = DS()
    ds.cuts = cu
    g.datasets = (ds,)
    name = c.name_("field", nonempty=True)
    row = c.int("row")
    c.assume(And(row >= 0, row < s.nc, s.cn(row) == name))
    g.unregister_categorical_cut_field(name)
    k = pulse(c, n)
    c.ensure("marks of the unregistered cut are erased", cu._mask.at(k) == (old.at(k) & ~s.cm(row)))


def h_new(c):
    m, g, s, own = fresh_state(c, LOAD)
    n = c.int("n_pulses", lo=0)
    cu = m.Cuts(n, g)
    c.ensure("one mark word per pulse", num(cu._mask.shape[0]) == n)
    k = pulse(c, n)
    c.ensure("a new pulse has no mark", cu._mask.at(k) == 0)


HARNESSES = [
    Harness("new", h_new, functions=[FILE + "__init__"]),
    Harness("cut by name", h_cut_name, functions=[FILE + "cut"]),
    Harness("cut by number", h_cut_number, functions=[FILE + "cut"]),
    Harness("clear_cut all", mk_clear(0), functions=[FILE + "clear_cut", FILE + "_boolean_fields_bit_mask"]),
    Harness("clear_cut 1 name", mk_clear(1), functions=[FILE + "clear_cut", FILE + "_boolean_fields_bit_mask"], bounded="one name per call"),
    Harness("clear_cut 2 names", mk_clear(2), functions=[FILE + "clear_cut", FILE + "_boolean_fields_bit_mask"], bounded="two names per call"),
    Harness("good all", mk_good(0, "good"), functions=[FILE + "good", FILE + "_boolean_fields_bit_mask"]),
    Harness("good 1 name", mk_good(1, "good"), functions=[FILE + "good"], bounded="one name per call"),
    Harness("good 2 names", mk_good(2, "good"), functions=[FILE + "good"], bounded="two names per call"),
    Harness("bad all", mk_good(0, "bad"), functions=[FILE + "bad"]),
    Harness("bad 1 name", mk_good(1, "bad"), functions=[FILE + "bad"], bounded="one name per call"),
    Harness("bad 2 names", mk_good(2, "bad"), functions=[FILE + "bad"], bounded="two names per call"),
    Harness("cut_parameter lo hi", mk_param(True, True, tuple), functions=[FILE + "cut_parameter", FILE + "cut"]),
    Harness("cut_parameter lo", mk_param(True, False, tuple), functions=[FILE + "cut_parameter"]),
    Harness("cut_parameter hi", mk_param(False, True, list), functions=[FILE + "cut_parameter"]),
    Harness("cut_parameter none", h_param_none, functions=[FILE + "cut_parameter"]),
    Harness("unregister erases marks", h_erase, functions=["mass/core/cut.py:CutFieldMixin.unregister_categorical_cut_field"]),
]
