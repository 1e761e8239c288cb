"""shared contracts of the cut-field registry (C01, C02, C03)"""
import numpy as rnp
from pyvc import *
from symnp import fresh, SArr, as_arr, SRec
from loader import Loader

B32 = rnp.dtype([("name", rnp.bytes_, 64), ("mask", rnp.uint32)])
CL = rnp.dtype([("field", rnp.bytes_, 64), ("category", rnp.bytes_, 64), ("code", rnp.uint32)])


class Attrs(dict):
    """h5py attributes: reading gives a fresh copy, writing stores a copy"""

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        return v.copy() if isinstance(v, SArr) else v

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v.copy() if isinstance(v, SArr) else v)


class H5:
    def __init__(self, attrs):
        self.attrs = attrs


def bit(x, i):
    if isinstance(i, int) and isinstance(x, SBV):
        return SBool(z3.Extract(i, i, x.e) == 1)
    return (x >> i) & 1 == 1


class State:
    """the registry: 32 boolean rows, nc categorical rows, used bits, category list"""

    def __init__(self, c, bt, ct, cl, used):
        self.bt, self.ct, self.cl, self.used = bt, ct, cl, used
        self.nc = num(ct.shape[0])
        self.bn = [bt.at(i)["name"] for i in range(32)]
        self.bm = [bt.at(i)["mask"] for i in range(32)]

    def cn(self, r): return self.ct.at(r)["name"]
    def cm(self, r): return self.ct.at(r)["mask"]

    @staticmethod
    def of(c, g):
        a = g.hdf5_file.attrs
        return State(c, a["cut_boolean_field_desc"], a["cut_categorical_field_desc"], a["cut_category_list"], a["cut_used_bit_flags"])


def bool_rows(s):
    """row i is empty (name '' and mask 0) or owns exactly bit i"""
    return And(*[ite(s.bn[i] == "", s.bm[i] == 0, s.bm[i] == (1 << i)) for i in range(32)])


def bool_distinct(s):
    return And(*[Implies(s.bn[i] != "", And(*[s.bn[i] != s.bn[j] for j in range(i)])) for i in range(32)])


def cat_rows(s):
    """categorical rows: named, non-empty mask"""
    return forall(lambda r: Implies(And(r >= 0, r < s.nc), And(s.cn(r) != "", s.cm(r) != 0)), pats=lambda r: s.cm(r))


def cat_disjoint(s):
    return forall(lambda r, q: Implies(And(r >= 0, r < q, q < s.nc), And(s.cn(r) != s.cn(q), (s.cm(r) & s.cm(q)) == 0)), n=2,
                  pats=lambda r, q: (s.cm(r), s.cm(q)))


def cat_vs_bool(s):
    """categorical masks lie in the used bits that no boolean row owns"""
    K = s.used & ~bits_of_rows(s.bn)
    return forall(lambda r: Implies(And(r >= 0, r < s.nc), (s.cm(r) & K) == s.cm(r)), pats=lambda r: s.cm(r))


def owned_used(s):
    return And(*[Implies(s.bn[i] != "", bit(s.used, i)) for i in range(32)],
               forall(lambda r: Implies(And(r >= 0, r < s.nc), (s.cm(r) & s.used) == s.cm(r)), pats=lambda r: s.cm(r)))


def used_owned(s, own):
    """every used bit is owned: own(b) is a witness row of the categorical table"""
    return And(*[Implies(And(bit(s.used, b), s.bn[b] == ""), And(own(b) >= 0, own(b) < s.nc, bit(s.cm(own(b)), b))) for b in range(32)])


CLAUSES = [("boolean rows own their own bit", bool_rows), ("boolean names distinct", bool_distinct), ("categorical rows non-empty", cat_rows),
           ("categorical masks disjoint, names distinct", cat_disjoint), ("no bit shared between kinds", cat_vs_bool), ("owned bits are marked used", owned_used)]


def bits_of_rows(names):
    return SBV(z3.simplify(z3.Concat(*[z3.If(sbool(n != "").e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for n in reversed(names)])))


def bool_table(c, name="bn"):
    from symnp import _array
    nm = [c.name_(f"{name}{i}") for i in range(32)]
    return _array([(nm[i], ite(nm[i] == "", SBV(z3.BitVecVal(0, 32)), SBV(z3.BitVecVal(1 << i, 32)))) for i in range(32)], dtype=B32).copy()


def fresh_state(c, load, with_list=True):
    m = load.load("mass.core.cut")

    class G(m.CutFieldMixin):
        pass
    g = G()
    # the invariant of the boolean rows holds by construction: row i is ('', 0) or (name, 1 << i)
    bt = bool_table(c)
    nc = c.int("n_cat_fields", lo=0)
    ct = fresh(c, "cat_desc", nc, B32)
    ncl = c.int("n_categories", lo=0)
    cl = fresh(c, "cat_list", ncl, CL)
    catbits = c.bv("catbits")
    boolbits = bits_of_rows([bt.at(i)["name"] for i in range(32)])
    c.assume((catbits & boolbits) == 0)
    used = boolbits | catbits
    g.hdf5_file = H5(Attrs())
    for k, v in (("cut_boolean_field_desc", bt), ("cut_categorical_field_desc", ct), ("cut_category_list", cl), ("cut_used_bit_flags", used)):
        g.hdf5_file.attrs[k] = v
    s = State.of(c, g)
    c.assume(bool_distinct(s))
    c.assume(cat_rows(s))
    c.assume(cat_disjoint(s))
    c.assume(forall(lambda r: Implies(And(r >= 0, r < nc), (s.cm(r) & catbits) == s.cm(r)), pats=lambda r: s.cm(r)))
    own = z3.Function(c.fname("own"), z3.IntSort(), z3.IntSort())
    o = lambda b: SNum(own(num(b).e))
    for b in range(32):
        c.assume(Implies(bit(catbits, b), And(o(b) >= 0, o(b) < nc, bit(s.cm(o(b)), b))))
    s.catbits = catbits
    return m, g, s, o


def assert_inv(c, g, own, pre=""):
    s = State.of(c, g)
    for nm, f in CLAUSES:
        c.ensure(pre + nm, f(s))
    c.ensure(pre + "used bits are owned", used_owned(s, own))
    return s


def same_state(c, g, s, pre="refused request: "):
    t = State.of(c, g)
    c.ensure(pre + "boolean table unchanged", And(*[And(t.bn[i] == s.bn[i], t.bm[i] == s.bm[i]) for i in range(32)]))
    c.ensure(pre + "used bits unchanged", t.used == s.used)
    r = c.int("r")
    c.assume(And(r >= 0, r < s.nc))
    c.ensure(pre + "categorical table unchanged", And(t.nc == s.nc, t.cn(r) == s.cn(r), t.cm(r) == s.cm(r)))
    q = c.int("q", lo=0)
    c.assume(q < num(s.cl.shape[0]))
    c.ensure(pre + "category list unchanged", And(num(t.cl.shape[0]) == num(s.cl.shape[0]), *[t.cl.at(q)[k] == s.cl.at(q)[k] for k in CL.names]))
