from cutlib import *
from harness import Harness

LOAD = Loader()
FILE = "mass/core/cut.py:Cuts."


def setup(c):
    m, g, s, own = fresh_state(c, LOAD)
    n = c.int("n_pulses", lo=0)
    cu = m.Cuts(n, g)
    old = fresh(c, "mask", n, rnp.uint32)
    cu._mask = old.copy()
    c.cover("precondition")
    return m, g, s, cu, n, old


def field(c, s, nm="field"):
    """a registered categorical cut: its name and its row"""
    name = c.name_(nm, nonempty=True)
    row = c.int(nm + "_row")
    c.assume(And(row >= 0, row < s.nc, s.cn(row) == name))
    return name, row


def low(M):
    """weight of the lowest bit"""
    return M & (~M + 1)


def pulse(c, n):
    k = c.int("k")
    c.assume(And(k >= 0, k < n))
    return k


def fits(v, M):
    """the code v lies within the bits of the field: multiplying by the lowest weight neither overflows nor leaves the field"""
    return And(((v * low(M)) & ~M) == 0, *[Implies(low(M) == (1 << i), (v & ~(0xFFFFFFFF >> i)) == 0) for i in range(1, 32)])


def h_store_load(c):
    """cut(field, codes) then category_codes(field): the stored numbers come back and nothing else moves"""
    m, g, s, cu, n, old = setup(c)
    name, row = field(c, s)
    c.assume(And(*[s.bn[i] != name for i in range(32)]))
    codes = fresh(c, "codes", n, rnp.uint32)
    M = s.cm(row)
    cu.cut(name, codes)
    k = pulse(c, n)
    new = cu._mask.at(k)
    c.ensure("other flags of the pulse are untouched", ((new ^ old.at(k)) & ~M) == 0)
    c.ensure("number of pulses kept", num(cu._mask.shape[0]) == n)
    back = cu.category_codes(name)
    c.ensure("one code per pulse", num(back.shape[0]) == n)
    c.ensure("a query changes nothing", cu._mask.at(k) == new)
    c.ensure("stored numbers are read back", Implies(fits(codes.at(k), M), back.at(k) == codes.at(k)))


def h_codes(c):
    m, g, s, cu, n, old = setup(c)
    name = c.name_("field", nonempty=True)
    row = c.int("row")
    c.assume(And(row >= 0, row < s.nc))
    try:
        r = cu.category_codes(name)
    except KeyError:
        c.ensure("refused only for unknown fields", s.cn(row) != name)
        return
    k = pulse(c, n)
    M = s.cm(row)
    c.ensure("code is the field's bits, shifted to zero", Implies(s.cn(row) == name, And(r.at(k) * low(M) == (old.at(k) & M), fits(r.at(k), M))))


def label(c, s, name, row, nm):
    lab = c.name_(nm, nonempty=True)
    z = c.int(nm + "_row")
    ncl = num(s.cl.shape[0])
    f, t, code = s.cl.at(z)
    c.assume(And(z >= 0, z < ncl, f == name, t == lab))
    c.assume(fits(code, s.cm(row)))
    # a label is listed once per field
    c.assume(forall(lambda q: Implies(And(q >= 0, q < ncl, s.cl.at(q)["field"] == name, s.cl.at(q)["category"] == lab), q == z), pats=lambda q: s.cl.at(q)["code"]))
    return lab, code


def h_select1(c):
    m, g, s, cu, n, old = setup(c)
    name, row = "field_a", c.int("row")
    c.assume(And(row >= 0, row < s.nc, s.cn(row) == name))
    lab, code = label(c, s, name, row, "label")
    r = cu.select_category(**{name: lab})
    k = pulse(c, n)
    M = s.cm(row)
    c.ensure("one answer per pulse", num(r.shape[0]) == n)
    c.ensure("selected iff the pulse carries the label's number", Iff(r.at(k), (old.at(k) & M) == code * low(M)))
    c.ensure("a query changes nothing", cu._mask.at(k) == old.at(k))


def h_good_cat(c):
    m, g, s, cu, n, old = setup(c)
    name, row = "field_a", c.int("row")
    c.assume(And(row >= 0, row < s.nc, s.cn(row) == name))
    lab, code = label(c, s, name, row, "label")
    r, sel = cu.good(**{name: lab}), cu.select_category(**{name: lab})
    good = cu.good()
    b = cu.bad(**{name: lab})
    bad = cu.bad()
    k = pulse(c, n)
    c.ensure("good(field=label) is the intersection", Iff(r.at(k), And(good.at(k), sel.at(k))))
    c.ensure("bad(field=label) is the intersection", Iff(b.at(k), And(bad.at(k), sel.at(k))))


def h_cut_categorical(c):
    """conflicts are refused; otherwise the codes handed to cut() are those of the labels, 0 for pulses without one"""
    m = LOAD.load("mass.core.cut")
    n = c.int("n_pulses", lo=0)
    codes = {"a": c.bv("code_a"), "b": c.bv("code_b")}
    c.assume(codes["a"] != codes["b"])
    calls = []
    class C(m.Cuts):
        def __init__(self): pass
        def cut(self, f, lab): calls.append((f, lab))
    class T: pass
    cu = C()
    cu.tes_group = T()
    cu.tes_group.cut_field_categories = lambda f: dict(codes) if f == "fld" else {}
    cu._mask = fresh(c, "mask", n, rnp.uint32)
    A, B = fresh(c, "is_a", n, rnp.dtype(bool)), fresh(c, "is_b", n, rnp.dtype(bool))
    k = pulse(c, n)
    conflict = exists(lambda i: And(i >= 0, i < n, A.at(i), B.at(i)))
    try:
        cu.cut_categorical("fld", {"a": A, "b": B})
    except ValueError:
        c.ensure("only conflicting labels are refused", conflict)
        c.ensure("refused request changes nothing", not calls)
        return
    c.ensure("conflicting labels are refused", Not(And(A.at(k), B.at(k))))
    c.ensure("one store", len(calls) == 1 and calls[0][0] == "fld")
    if len(calls) == 1:
        v = calls[0][1].at(k)
        c.ensure("each pulse gets its label's code, others 0", v == ite(A.at(k), codes["a"], ite(B.at(k), codes["b"], 0)))


HARNESSES = [
    Harness("store and load", h_store_load, functions=[FILE + "cut", FILE + "category_codes"], qtimeout=20),
    Harness("category_codes", h_codes, functions=[FILE + "category_codes"]),
    Harness("select one label", h_select1, functions=[FILE + "select_category"]),
    Harness("good and bad with a label", h_good_cat, functions=[FILE + "good", FILE + "bad"]),
    Harness("cut_categorical", h_cut_categorical, functions=[FILE + "cut_categorical"], bounded="two labels per call"),
]
