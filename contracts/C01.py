import types, inspect
from cutlib import *
from harness import Harness

LOAD = Loader()
FILE = "mass/core/cut.py:CutFieldMixin."
LOW = "_CutFieldMixin__lowest_available_cut_bit"


def plain(f):
    """*names becomes an ordinary parameter, so that the sequence of names may have any length"""
    code = f.__code__
    if not code.co_flags & inspect.CO_VARARGS:
        raise SpecMismatch("no varargs")
    return types.FunctionType(code.replace(co_flags=code.co_flags & ~inspect.CO_VARARGS, co_argcount=code.co_argcount + 1),
                              f.__globals__, f.__name__, f.__defaults__, f.__closure__)


def lowest_contract(c):
    """contract of the allocator (proved by harness 'lowest free bit'): a clear bit below 32, or ValueError if there is none"""
    def f(flags):
        c.ghost_calls += 1
        if c.choose("a bit is free"):
            p = c.bv("pos")
            fl = flags if isinstance(flags, SBV) else SBV(z3.BitVecVal(int(flags), 32))
            c.assume(And(p < 32, ((fl >> p) & 1) == 0))
            c.assume(((fl | (SBV(z3.BitVecVal(1, 32)) << p)) & ((SBV(z3.BitVecVal(1, 32)) << p) - 1)) == (fl & ((SBV(z3.BitVecVal(1, 32)) << p) - 1)))
            c.assume((~fl & ((SBV(z3.BitVecVal(1, 32)) << p) - 1)) == 0)
            w = SBV(z3.BitVecVal(1, 32)) << p
            for p0, w0 in c.ghost_bits:         # consequences of the contract at the earlier calls
                c.ensure("later bits are higher", And(p > p0, (w & w0) == 0))
                c.assume(And(p > p0, (w & w0) == 0))
            c.ghost_bits.append((p, w))
            return p
        c.assume(flags == 0xFFFFFFFF)
        raise ValueError("No available cut bit.")
    return f


def use_contract(c, m):
    c.ghost_calls, c.ghost_bits = 0, []
    if hasattr(m.CutFieldMixin, LOW):
        setattr(m.CutFieldMixin, LOW, staticmethod(lowest_contract(c)))


def h_lowest(c):
    m = Loader().load("mass.core.cut")
    f = getattr(m.CutFieldMixin, LOW)
    fl = c.bv("flags")
    try:
        p = f(fl)
    except ValueError:
        c.ensure("refuses only when all 32 bits are used", fl == 0xFFFFFFFF)
        return
    c.ensure("bit position below 32", And(p >= 0, p < 32))
    c.ensure("bit was free", Not(bit(fl, int(p))))
    c.ensure("all lower bits are used", And(*[bit(fl, i) for i in range(int(p))]))


# ------------------------------------------------------------------ boolean registration
def h_reg_bool(c):
    m, g, s, own = fresh_state(c, LOAD)
    use_contract(c, m)
    n = c.int("n_names", lo=0)
    names = fresh(c, "names", n, rnp.dtype("S64"))
    c.assume(forall(lambda k: Implies(And(k >= 0, k < n), names.at(k) != ""), pats=lambda k: names.at(k)))
    c.ghost = (s, names, own)
    c.cover("precondition")
    try:
        plain(m.CutFieldMixin.register_boolean_cut_fields)(g, names)
    except ValueError:
        same_state(c, g, s)
        return
    t = assert_inv(c, g, own)
    c.ensure("existing boolean cuts keep their bit", And(*[Implies(s.bn[i] != "", And(t.bn[i] == s.bn[i], t.bm[i] == s.bm[i])) for i in range(32)]))
    k = c.int("k")
    c.assume(And(k >= 0, k < n))
    c.ensure("every requested name is registered", Or(*[t.bn[i] == names.at(k) for i in range(32)]))
    c.ensure("a name that was registered before adds nothing",
             Implies(And(n == 1, Or(*[s.bn[i] == names.at(0) for i in range(32)])), And(t.used == s.used, *[t.bn[i] == s.bn[i] for i in range(32)])))
    r = c.int("r")
    c.assume(And(r >= 0, r < s.nc))
    c.ensure("categorical cuts unchanged", And(t.nc == s.nc, t.cn(r) == s.cn(r), t.cm(r) == s.cm(r), num(t.cl.shape[0]) == num(s.cl.shape[0])))
    c.ensure("no other bit becomes used", And(*[Implies(And(bit(t.used, i), Not(bit(s.used, i))), t.bn[i] != "") for i in range(32)]))


def inv_reg(e):
    c = ctx()
    s, names, own = c.ghost
    t = State(c, e.boolean_fields, s.ct, s.cl, e.cut_used_bit_flags)
    out = [(nm, f(t)) for nm, f in CLAUSES]
    out.append(("used are owned", used_owned(t, own)))
    out.append(("old rows kept", And(*[Implies(s.bn[i] != "", And(t.bn[i] == s.bn[i], t.bm[i] == s.bm[i])) for i in range(32)])))
    out.append(("used grows only by new rows", And((s.used & t.used) == s.used,
                                                    *[Implies(And(bit(t.used, i), Not(bit(s.used, i))), t.bn[i] != "") for i in range(32)])))
    out.append(("seen names registered", forall(lambda k: Implies(And(k >= 0, k < e._k), Or(*[t.bn[i] == names.at(k) for i in range(32)])),
                                                pats=lambda k: names.at(k))))
    out.append(("re-registering changes nothing", Implies(And(e._k == 1, Or(*[s.bn[i] == names.at(0) for i in range(32)])),
                                                          And(t.used == s.used, *[t.bn[i] == s.bn[i] for i in range(32)]))))
    out.append(("nothing yet", Implies(e._k == 0, And(t.used == s.used, *[t.bn[i] == s.bn[i] for i in range(32)]))))
    return out


# ------------------------------------------------------------------ boolean unregistration (1 and 2 names: the name list is scanned by `in`)
def mk_unreg(nn):
    def h(c):
        m, g, s, own = fresh_state(c, LOAD)
        names = [c.name_(f"nm{i}") for i in range(nn)]
        known = And(*[And(x != "", Or(*[s.bn[i] == x for i in range(32)])) for x in names])
        try:
            g.unregister_boolean_cut_fields(*names)
        except KeyError:
            c.ensure("refused only for unknown names", Not(known))
            same_state(c, g, s)
            return
        c.ensure("unknown names are refused", known)
        t = assert_inv(c, g, own)
        hit = [And(s.bn[i] != "", Or(*[s.bn[i] == x for x in names])) for i in range(32)]
        c.ensure("exactly the named rows are emptied", And(*[ite(hit[i], t.bn[i] == "", And(t.bn[i] == s.bn[i], t.bm[i] == s.bm[i])) for i in range(32)]))
        c.ensure("exactly their bits are freed", And(*[Iff(bit(t.used, i), And(bit(s.used, i), Not(hit[i]))) for i in range(32)]))
        r = c.int("r")
        c.assume(And(r >= 0, r < s.nc))
        c.ensure("categorical cuts unchanged", And(t.nc == s.nc, t.cn(r) == s.cn(r), t.cm(r) == s.cm(r)))
    return h


# ------------------------------------------------------------------ categorical
def h_unreg_cat(c):
    m, g, s, own = fresh_state(c, LOAD)
    name = c.name_("field")
    known = Not(forall(lambda r: Implies(And(r >= 0, r < s.nc), s.cn(r) != name), pats=lambda r: s.cm(r)))
    w = c.int("w")
    try:
        g.unregister_categorical_cut_field(name)
    except KeyError:
        r = c.int("r0")
        c.assume(And(r >= 0, r < s.nc))
        c.ensure("refused only for unknown names", s.cn(r) != name)
        same_state(c, g, s)
        return
    # w: the row of the named field
    t = State.of(c, g)
    r = c.int("r")
    c.assume(And(r >= 0, r < s.nc))
    freed = s.used & ~t.used
    c.ensure("unregistered row's bits are freed", Implies(s.cn(r) == name, And(freed == s.cm(r), (t.used | s.cm(r)) == s.used)))
    q = c.int("q")
    c.assume(And(q >= 0, q < t.nc))
    c.ensure("the field is gone", t.cn(q) != name)
    c.ensure("boolean cuts unchanged", And(*[And(t.bn[i] == s.bn[i], t.bm[i] == s.bm[i]) for i in range(32)]))
    inverse = getattr(t.ct, "_rank_of", None)
    # owners of the surviving rows
    exist = exists(lambda x: And(x >= 0, x < t.nc, t.cn(x) == s.cn(r), t.cm(x) == s.cm(r)))
    c.ensure("other categorical cuts survive unchanged", Implies(s.cn(r) != name, exist))
    back = exists(lambda x: And(x >= 0, x < s.nc, t.cn(q) == s.cn(x), t.cm(q) == s.cm(x)))
    c.ensure("no categorical cut appears", back)
    c.ensure("free bits stay free", (t.used & ~s.used) == 0)
    for nm, f in CLAUSES:
        c.ensure(nm, f(t))
    for b in range(32):
        o = own(b)
        c.ensure("used bits are owned", Implies(And(bit(t.used, b), t.bn[b] == ""),
                                                exists(lambda x: And(x >= 0, x < t.nc, bit(t.cm(x), b)))))
    z = c.int("z")
    c.assume(And(z >= 0, z < num(t.cl.shape[0])))
    c.ensure("labels of the field are gone", t.cl.at(z)["field"] != name)


def mk_reg_cat(k, symbolic=True):
    def h(c):
        m, g, s, own = fresh_state(c, LOAD)
        use_contract(c, m)
        name = c.name_("field", nonempty=True)
        cats = [c.name_(f"cat{i}", nonempty=True) for i in range(k)] if symbolic else [f"c{i}" for i in range(k)]
        default = c.name_("default", nonempty=True) if symbolic else "dflt"
        known = exists(lambda r: And(r >= 0, r < s.nc, s.cn(r) == name))
        try:
            g.register_categorical_cut_field(name, cats, default)
        except ValueError:
            same_state(c, g, s)
            c.ensure("refused only when bits ran out", True)
            return
        t = State.of(c, g)
        r = c.int("r")
        c.assume(And(r >= 0, r < s.nc))
        c.ensure("existing categorical cuts unchanged", And(t.cn(r) == s.cn(r), t.cm(r) == s.cm(r)))
        c.ensure("boolean cuts unchanged", And(*[And(t.bn[i] == s.bn[i], t.bm[i] == s.bm[i]) for i in range(32)]))
        q = c.int("q", lo=0)
        c.assume(q < num(s.cl.shape[0]))
        c.ensure("existing labels unchanged", And(num(t.cl.shape[0]) >= num(s.cl.shape[0]), *[t.cl.at(q)[kk] == s.cl.at(q)[kk] for kk in CL.names]))
        if bool(t.nc == s.nc):
            c.ensure("only a known name adds nothing", known)
            c.ensure("known name changes nothing", And(t.used == s.used, num(t.cl.shape[0]) == num(s.cl.shape[0])))
            return
        new = t.cm(s.nc)
        c.ensure("one row added, with the requested name", And(t.nc == s.nc + 1, t.cn(s.nc) == name))
        c.ensure("name was not registered", Not(known))
        c.ensure("bits were free", And(new != 0, (new & s.used) == 0))
        c.ensure("exactly these bits become used", t.used == (s.used | new))
        for nm, f in CLAUSES:
            c.ensure(nm, f(t))
        c.ensure("used bits are owned", used_owned(t, lambda b: ite(bit(new, int(b)), s.nc, own(b))))
        # codes
        labels = []
        for x in [default] + cats:
            if not any(bool(x == y) for y in labels):
                labels.append(x)
        n0 = num(s.cl.shape[0])
        c.ensure("one entry per distinct label", num(t.cl.shape[0]) == n0 + len(labels))
        c.ensure("labels in order, default first", And(*[And(t.cl.at(n0 + i)["field"] == name, t.cl.at(n0 + i)["category"] == x) for i, x in enumerate(labels)]))
        codes = [t.cl.at(n0 + i)["code"] for i in range(len(labels))]
        c.ensure("default has code 0", codes[0] == 0)
        for i in range(len(codes)):
            c.ensure("codes distinct", And(*[codes[i] != codes[j] for j in range(i)]))
        low = new & (~new + 1)
        c.ensure("codes fit the field's bits", And(*[((x * low) & ~new) == 0 for x in codes] + [(x * low) >> 0 >= x for x in codes]))
    return h


HARNESSES = [
    Harness("lowest free bit", h_lowest, functions=[FILE + "__lowest_available_cut_bit"]),
    Harness("register_boolean_cut_fields", h_reg_bool, functions=[FILE + "register_boolean_cut_fields"],
            specs={("register_boolean_cut_fields", 0): LoopSpec(inv_reg)}),
    Harness("unregister_boolean 1 name", mk_unreg(1), functions=[FILE + "unregister_boolean_cut_fields"], bounded="one name per call"),
    Harness("unregister_categorical", h_unreg_cat, functions=[FILE + "unregister_categorical_cut_field"]),
] + [Harness(f"register_categorical {k} labels", mk_reg_cat(k), functions=[FILE + "register_categorical_cut_field"],
             bounded=f"{k} arbitrary (possibly equal) labels and default") for k in (0, 1, 2)]
