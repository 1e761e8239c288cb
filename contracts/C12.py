"""Functions and their algebra: every operator, every simplification branch, every derivative rule, for any component functions

A component function is unknown: it answers isinstance with any kind (decided lazily, so every shape the
code inspects is covered) and its values and derivatives of any order are uninterpreted.  Nested
constructor calls and the components' methods are used by contract only."""
import math
import z3
from pyvc import *
from loader import Loader
from harness import Harness

F = "mass/mathstat/derivative.py:"
LOAD = Loader()
I, R = z3.IntSort(), z3.RealSort()


def rl(x): return z3.ToReal(num(x).e) if num(x).is_int else num(x).e


def uf(name, *a):
    f = z3.Function(name, *([R] * len(a)), R)
    return SNum(f(*[rl(x) for x in a]))


def fact(n):
    if isinstance(n, int):
        return math.factorial(n)
    n = num(n)
    f = SNum(z3.Function("fact", I, R)(n.e))
    ctx().axiom(f > 0)
    return f


def pw(x, n):
    """x to the power n; facts are supplied where needed"""
    c, r = ctx(), uf("pw", x, n)
    x, n = num(x), num(n)
    c.axiom(Implies(x > 0, r > 0))
    c.axiom(Implies(n == 0, r == 1))
    c.axiom(Implies(n == 1, r == x))
    c.axiom(Implies(And(x == 0, n > 0), r == 0))
    return r


def ex(x):
    r = uf("exp", x)
    ctx().axiom(r > 0)
    return r


# ------------------------------------------------------------ what a function means: value and derivative
class Den:
    def D(self, k=1):
        if not isinstance(k, int):
            return DN(self, k)
        d = self
        for _ in range(k):
            d = d.d()
        return d


class Cst(Den):
    def __init__(self, v): self.v = v
    def val(self, x): return num(self.v)
    def d(self): return Cst(0)
    def D(self, k=1): return self if isinstance(k, int) and k == 0 else Cst(0) if isinstance(k, int) or ctx().provable(k >= 1) else Den.D(self, k)


class Pw(Den):
    def __init__(self, n, coef=1): self.n, self.coef = n, coef
    def val(self, x): return self.coef * pw(x, self.n)
    def d(self): return Pw(self.n - 1, self.coef * self.n)


class Ex(Den):
    def val(self, x): return ex(x)
    def d(self): return self
    def D(self, k=1): return self


class Lg(Den):
    def val(self, x): return uf("log", x)
    def d(self): return Pw(-1)


class Add(Den):
    def __init__(self, a, b): self.a, self.b = a, b
    def val(self, x): return self.a.val(x) + self.b.val(x)
    def d(self): return Add(self.a.d(), self.b.d())
    def D(self, k=1): return Add(self.a.D(k), self.b.D(k))


class Mul(Den):
    def __init__(self, a, b): self.a, self.b = a, b
    def val(self, x): return self.a.val(x) * self.b.val(x)
    def d(self): return Add(Mul(self.a.d(), self.b), Mul(self.a, self.b.d()))


class Cmp(Den):
    def __init__(self, a, b): self.a, self.b = a, b
    def val(self, x): return self.a.val(self.b.val(x))
    def d(self): return Mul(Cmp(self.a.d(), self.b), self.b.d())


class Leaf(Den):
    def __init__(self, name, k=0): self.name, self.k = name, k
    def val(self, x): return SNum(z3.Function(self.name, I, R, R)(num(self.k).e, rl(x)))
    def d(self): return Leaf(self.name, self.k + 1)
    def D(self, k=1): return Leaf(self.name, self.k + k)


class DN(Den):
    """k-th derivative of base, k symbolic"""
    def __init__(self, base, k): self.base, self.k = base, k
    def val(self, x): return uf("dn%d" % id(self.base), self.k, x)
    def D(self, k=1): return DN(self.base, self.k + k)


def world(c):
    m = LOAD.load("mass.mathstat.derivative")

    class NPf:
        def power(self, x, n): return pw(x, n)
        def exp(self, x): return ex(x)
        def log(self, x): return uf("log", x)
        def clip(self, x, lo, hi): return ite(num(x) < lo, lo, num(x)) if hi is None else ite(num(x) < lo, lo, ite(num(x) > hi, hi, num(x)))
        def ones_like(self, x): return num(1)
        def zeros_like(self, x): return num(0)
        def asarray(self, x): return x

        def sum(self, l, axis=None):
            c.got_sum = l
            if isinstance(l, list):
                t = num(0)
                for v in l:
                    t = t + v
                return t
            return Tot(l)
    m.np = NPf()

    class Math:
        factorial = staticmethod(fact)
    m.math = Math()

    class U(m.Function):
        """any function at all, by contract"""
        def __init__(self, den): self.den = den
        def derivative(self, der=1): return U(self.den.D(der))
        def __call__(self, x, der=0): return self.den.D(der).val(x)
    m.__dict__["U_"] = U
    REAL = m.ExprMeta.__dict__.get("__real__") or m.ExprMeta.__call__
    m.ExprMeta.__real__ = REAL

    def contract(cls, a, b, *args, **k):
        """a combination of two functions, by contract"""
        if args or k:
            raise TypeError("two operands")
        for o in (a, b):
            if not isinstance(o, (m.Function, Any)):
                raise TypeError("not a function: %r" % (o,))
        op = {m.Summation: Add, m.Multiplication: Mul, m.Composition: Cmp}[cls]
        return U(op(meaning(m, a), meaning(m, b)))
    m.contract_ = contract
    m.ExprMeta.__call__ = contract
    return m, U


class Tot:
    def __init__(self, l): self.l = l


def meaning(m, o):
    """denotation of a real object, by its class and fields"""
    if isinstance(o, (m.U_, Any)):
        return o.den
    t = type(o)
    if t is m.ConstantFunction:
        return Cst(o.v)
    if t in (m.PowerFunction, m.Identity):
        return Pw(o.n)
    if t is m.LogFunction:
        return Lg()
    if t is m.ExponentialFunction:
        return Ex()
    if t in (m.Summation, m.Multiplication, m.Composition):
        op = {m.Summation: Add, m.Multiplication: Mul, m.Composition: Cmp}[t]
        return op(meaning(m, o.g), meaning(m, o.h))
    raise TypeError("no meaning for %r" % (o,))


class Any(Ghost):
    """a function of unknown class; the class is decided when the code asks for it"""

    def __init__(self, m, nm):
        self.__dict__.update(m=m, nm=nm, kind=None, no=set(), den=None, asked=set())

    def _isinstance_(self, ts):
        m, me = self.m, self.__dict__
        kinds = [("Constant", m.ConstantFunction), ("Identity", m.Identity), ("Power", m.PowerFunction),
                 ("Log", m.LogFunction), ("Exp", m.ExponentialFunction), ("Mult", m.Multiplication),
                 ("Comp", m.Composition), ("Sum", m.Summation)]
        order = {"Identity": m.Identity, "Power": m.PowerFunction}
        if m.Function in ts:
            return True
        if any(t in (int, float) for t in ts):
            return False
        for nm, k in kinds:
            if not any(issubclass(k, t) for t in ts):
                continue
            if me["kind"] is not None:
                if me["kind"] == nm:
                    return True
                continue
            if nm in me["no"]:
                continue
            if ctx().choose(f"{self.nm} is {nm}"):
                me["kind"] = nm
                self._decide()
                return True
            me["no"].add(nm)
        return False

    def _decide(self):
        c, k, me = ctx(), self.kind, self.__dict__
        if k == "Constant":
            me["v"] = c.real(self.nm + ".v")
            me["den"] = Cst(self.v)
        elif k == "Identity":
            me["n"] = num(1)
            me["den"] = Pw(1)
        elif k == "Power":
            if c.choose(self.nm + " integer power"):
                me["n"] = c.int(self.nm + ".n")
            else:
                me["n"] = c.real(self.nm + ".n")
                c.assume(SBool(z3.Not(z3.IsInt(self.n.e))))
            me["den"] = Pw(self.n)
        elif k == "Log":
            me["den"] = Lg()
        elif k == "Exp":
            me["den"] = Ex()
        else:
            me["g"], me["h"] = Any(self.m, self.nm + ".g"), Any(self.m, self.nm + ".h")
            me["den"] = Late(self, {"Mult": Mul, "Comp": Cmp, "Sum": Add}[k])

    def __getattribute__(self, k):
        if k == "den" and self.__dict__["den"] is None:
            self.__dict__["den"] = AnyDen(self)
        return object.__getattribute__(self, k)

    def __call__(self, x, der=0): return self.den.D(der).val(x)
    def derivative(self, der=1): return self.m.U_(self.den.D(der))


class AnyDen(Leaf):
    """meaning of a function whose class is not known (yet)"""
    def __init__(self, o, k=0):
        Leaf.__init__(self, ctx().fname("f_" + o.nm) if not hasattr(o, "fn_") else o.fn_, k)
        o.__dict__["fn_"], self.o = self.name, o

    def val(self, x):
        d = self.o.__dict__["den"]
        return Leaf.val(self, x) if d is self or self.k else d.val(x)


class Late(Den):
    def __init__(self, o, op): self.o, self.op = o, op
    def cur(self): return self.op(self.o.g.den, self.o.h.den)
    def val(self, x): return self.cur().val(x)
    def d(self): return self.cur().d()


# ------------------------------------------------------------ simplification keeps values
def powers(o):
    """exponents occurring in an Any tree"""
    if isinstance(o, Any):
        if o.kind in ("Power", "Identity"):
            yield o.n
        for k in ("g", "h"):
            if k in o.__dict__:
                yield from powers(o.__dict__[k])


def power_facts(c, x, a, b):
    """facts of real powers for the two exponents at x, on their common domain"""
    a, b = num(a), num(b)
    s, mu = pw(x, a + b), pw(x, a * b)
    isint = lambda n: n.is_int
    ax = ite(x < 0, -x, x)
    pa, pb = pw(x, a), pw(x, b)
    c.axiom(Implies(x > 0, s == pa * pb))
    c.axiom(Implies(And(x == 0, a >= 0, b >= 0), s == pa * pb))
    if isint(a) and isint(b):
        c.axiom(Implies(x < 0, s == pa * pb))


def comp_facts(c, x, a, b):
    """(x^b)^a against x^(ab): facts of real powers, x in the domain of the left side"""
    a, b = num(a), num(b)
    y = pw(x, b)
    ax = -x
    c.axiom(Implies(x > 0, pw(y, a) == pw(x, a * b)))
    # zero: 0^b is 0 or 1
    c.axiom(Implies(y == 1, pw(y, a) == 1))
    # the power 0 of anything is 1, positive powers of 0 are 0 (given by pw)
    # negative x: only integer b; even and odd
    if b.is_int:
        yb = pw(ax, b)
        even = b % 2 == 0
        c.axiom(Implies(x < 0, y == ite(even, yb, -yb)))
        c.axiom(Implies(x < 0, And(yb > 0, pw(yb, a) == pw(ax, a * b))))
        if a.is_int:
            c.axiom(Implies(And(x < 0, Not(even)), pw(-yb, a) == ite(a % 2 == 0, pw(yb, a), -pw(yb, a))))
            c.axiom(Implies(x < 0, pw(x, a * b) == ite((a * b) % 2 == 0, pw(ax, a * b), -pw(ax, a * b))))
            # parity of a product
            c.axiom(((a * b) % 2 == 0) == Or(a % 2 == 0, b % 2 == 0))


def h_simplify(opn):
    def h(c):
        m, U = world(c)
        a, b = Any(m, "a"), Any(m, "b")
        cls = getattr(m, opn)
        r = m.ExprMeta.__real__(cls, a, b)
        x = c.real("x")
        op = {"Summation": Add, "Multiplication": Mul, "Composition": Cmp}[opn]
        spec = op(a.den, b.den)
        got = meaning(m, r)
        es = list(powers(a)) + list(powers(b))
        if opn == "Multiplication" and len(es) == 2:
            # domain: both factors are defined
            for e in es:
                c.assume(Or(x > 0, And(x == 0, num(e) >= 0), And(x < 0, sbool(num(e).is_int))))
            power_facts(c, x, *es)
        if opn == "Composition" and a.kind == "Power" and b.kind == "Power":
            p, q = a.n, b.n
            y = pw(x, q)
            c.assume(Or(x > 0, And(x == 0, q >= 0), And(x < 0, sbool(num(q).is_int))))
            comp_facts(c, x, p, q)
            c.assume(Or(y > 0, And(y == 0, p >= 0), And(y < 0, sbool(num(p).is_int))))
        if opn == "Composition" and {a.kind, b.kind} == {"Log", "Exp"}:
            c.assume(Or(sbool(a.kind == "Log"), x > 0))
            y = spec.b.val(x)
            c.axiom(uf("log", ex(x)) == x)
            c.axiom(Implies(x > 0, ex(uf("log", x)) == x))
        c.ensure("the same value as the plain combination", got.val(x) == spec.val(x))
    return h


# ------------------------------------------------------------ operators
def h_operators(c):
    m, U = world(c)
    f, g, k, x = U(Leaf(c.fname("f"))), U(Leaf(c.fname("g"))), c.real("k"), c.real("x")
    fv, gv = f.den.val(x), g.den.val(x)
    V = lambda o: meaning(m, o).val(x)
    E = c.ensure
    num_ = k if c.choose("real number") else c.int("ki")
    if c.choose("plain python number"):
        num_ = 3 if c.choose("int") else -2.5
    kv = num(num_)
    E("f + g", V(f + g) == fv + gv)
    E("f - g", V(f - g) == fv - gv)
    E("f * g", V(f * g) == fv * gv)
    E("-f", V(-f) == -fv)
    c.axiom(Implies(Not(gv == 0), pw(gv, -1) * gv == 1))
    c.assume(Not(gv == 0))
    E("f / g", V(f / g) * gv == fv)
    E("f << g", V(f << g) == f.den.val(gv))
    E("f >> g", V(f >> g) == g.den.val(fv))
    E("number + f", V(f.__radd__(num_)) == kv + fv)
    E("number - f", V(f.__rsub__(num_)) == kv - fv)
    E("number * f", V(f.__rmul__(num_)) == kv * fv)
    E("number / g", V(g.__rtruediv__(num_)) * gv == kv)
    E("f + number", V(f + num_) == fv + kv)
    E("f - number", V(f - num_) == fv - kv)
    E("f * number", V(f * num_) == fv * kv)
    c.axiom(Implies(Not(kv == 0), pw(kv, -1) * kv == 1))
    E("f / number", Implies(Not(kv == 0), V(f / num_) * kv == fv))
    E("f ** number", V(f ** num_) == pw(fv, num_))
    E("f << number", (f << num_) == f.den.val(num_))
    E("number >> f", f.__rrshift__(num_) == f.den.val(num_))


# ------------------------------------------------------------ derivative rules
def order(c):
    """0, 1, or any higher order"""
    if c.choose("order 0"):
        return 0
    if c.choose("order 1"):
        return 1
    return c.int("der", lo=2)


def same(c, name, got, base, der, x):
    """got means the der-th derivative of base"""
    if isinstance(der, int):
        c.ensure(name, got.val(x) == base.D(der).val(x))
        return
    if isinstance(got, Add) and isinstance(got.a, DN) and isinstance(got.b, DN) and c.provable(num(got.a.k) == got.b.k):
        got = DN(Add(got.a.base, got.b.base), got.a.k)        # the derivative is linear
    if isinstance(got, DN):
        k = got.k
        j = c.int("j")
        # the order still to be taken plus the steps already made is the order asked for
        steps = 0
        for steps in range(4):
            if c.provable(num(k) + steps == der):
                break
        c.ensure(name + ": order", num(k) + steps == der)
        c.ensure(name + ": base", got.base.val(x) == base.D(steps).val(x))
    else:
        c.ensure(name + ": no remaining order", got.val(x) == base.D(der).val(x))


def expo(c, nm="n"):
    if c.choose("integer power"):
        return c.int(nm)
    return c.real(nm)


def h_derivative(c):
    m, U = world(c)
    x = c.real("x")
    f, g = U(Leaf(c.fname("f"))), U(Leaf(c.fname("g")))
    for k, nm in enumerate(["Constant", "Power", "Identity", "Log", "Exp", "Sum", "Mult", "Comp"]):
        if nm == "Comp" or c.choose("is " + nm):
            break
    new = lambda cls: type.__call__(cls, f, g)
    o = {"Constant": lambda: m.ConstantFunction(c.real("v")), "Power": lambda: m.PowerFunction(expo(c)), "Identity": m.Identity,
         "Log": m.LogFunction, "Exp": m.ExponentialFunction, "Sum": lambda: new(m.Summation), "Mult": lambda: new(m.Multiplication),
         "Comp": lambda: new(m.Composition)}[nm]()
    base = meaning(m, o)
    der = order(c)
    if nm == "Log":
        class P(m.Function):
            def __new__(cls, n): return U(Pw(n))
        keep, m.PowerFunction = m.PowerFunction, P
        try:
            r = o.derivative(der)
        finally:
            m.PowerFunction = keep
        if r is o:
            c.ensure(nm + ": order 0", sbool(isinstance(der, int) and der == 0))
            return
    else:
        r = o.derivative(der)
        if isinstance(der, int) and der == 1 and c.choose("default order"):
            r = o.derivative()
    got = meaning(m, r)
    same(c, f"derivative of {nm}", got, base, der, x)


def h_call(c):
    m, U = world(c)
    x = c.real("x")
    f, g = U(Leaf(c.fname("f"))), U(Leaf(c.fname("g")))
    for nm in ["Constant", "Power", "Identity", "Log", "Exp", "Sum", "Comp", "Mult"]:
        if nm == "Mult" or c.choose("is " + nm):
            break
    new = lambda cls: type.__call__(cls, f, g)
    o = {"Constant": lambda: m.ConstantFunction(c.real("v")), "Power": lambda: m.PowerFunction(expo(c)), "Identity": m.Identity,
         "Log": m.LogFunction, "Exp": m.ExponentialFunction, "Sum": lambda: new(m.Summation), "Mult": lambda: new(m.Multiplication),
         "Comp": lambda: new(m.Composition)}[nm]()
    base = meaning(m, o)
    der = order(c)
    # evaluation of a derivative goes through derivative(), by contract
    if nm in ("Power", "Identity", "Comp"):
        asked = []
        type(o).derivative_, keep = None, type(o).derivative

        def contract(self, der=1):
            return U(meaning(m, self).D(der))
        cls = m.PowerFunction if nm in ("Power", "Identity") else m.Composition
        keep, cls.derivative = cls.derivative, contract
        try:
            v = o(x, der=der)
        finally:
            cls.derivative = keep
        if nm != "Comp":
            c.axiom(pw(x, o.n) * pw(x, -num(o.n)) == 1)
            c.assume(Not(pw(x, -num(o.n)) == 0))
        if isinstance(der, int):
            c.ensure(nm + ": value", v == base.D(der).val(x))
            if der == 0:
                c.ensure(nm + ": value is the default", o(x) == base.val(x))
        return
    if nm == "Log":
        c.assume(x >= z3.Q(1, 1000000)) if False else c.assume(x * 1000000 >= 1)
        made = []

        class P(m.Function):
            def __new__(cls, n):
                made.append(n)
                return U(Pw(n))
        keep, m.PowerFunction = m.PowerFunction, P
        try:
            v = o(x, der=der)
        finally:
            m.PowerFunction = keep
        if isinstance(der, int):
            c.ensure("Log: value", v == base.D(der).val(x))
        else:
            c.ensure("Log: derivatives are those of 1/x", sbool(made == [-1]))
        return
    v = o(x, der=der)
    if nm == "Mult" and not isinstance(der, int):
        l = c.got_sum
        c.ensure("Leibniz: number of terms", num(len_(l)) == der + 1)
        k = c.int("k")
        c.assume(And(k >= 0, k <= der))
        t = l.elem(k)
        c.ensure("Leibniz: term", t * fact(der - k) * fact(k) == fact(der) * f.den.D(k).val(x) * g.den.D(der - k).val(x))
        return
    c.ensure(nm + ": value", v == base.D(der).val(x))


def len_(l): return l.n if hasattr(l, "n") else l.shape[0]


def h_leibniz(c):
    """Pascal's rule for the coefficients n!/((n-k)! k!), so that differentiating the sum of order n gives that of order n+1"""
    n, k = c.real("n"), c.real("k")
    c.assume(And(k >= 1, k <= n))
    A, B, C_ = c.real("fact(n)"), c.real("fact(k-1)"), c.real("fact(n-k)")
    c.assume(And(A > 0, B > 0, C_ > 0))
    fk, fn1k, fn1 = B * k, C_ * (n + 1 - k), A * (n + 1)      # k!, (n+1-k)!, (n+1)!
    c.ensure("Pascal's rule", fn1 / (fn1k * fk) == A / (C_ * fk) + A / (fn1k * B))


G = "mass/mathstat/interpolate.py:"


def h_fitted(c):
    """derivative objects of smoothed curves describe the same curve (arrays stand for any one of their elements)"""
    m = LOAD.load("mass.mathstat.interpolate")
    gpr = c.choose("GPR")
    base, cls = (m.GPRSpline, m.GPRSplineFunction) if gpr else (m.SmoothingSpline, m.SmoothingSplineFunction)

    def init(self, x, y, dy, dx=None, maxchisq=None, sigmaf=None):
        sc = num(1) if gpr else SNum(z3.Function("rms", R, R)(rl(x)))
        c.axiom(sc > 0)
        d = num(0) if dx is None else dx
        self.x, self.xscale, self.y, self.dy, self.dx = x / sc, sc, y, dy, d / sc
        self.maxchisq = c_npts if maxchisq is None else maxchisq
        # best_sigmaf is a function of the data
        self.curve = (x, y, dy, d, self.maxchisq)

    def call(self, x, der=0): return (self.curve, der, x)
    c_npts = c.int("Nk")
    keep = base.__init__, base.__call__
    base.__init__, base.__call__ = init, call
    try:
        x, y, dy = c.real("x"), c.real("y"), c.real("dy")
        kw = {}
        if c.choose("errors on x"):
            kw["dx"] = c.real("dx")
        if not gpr and c.choose("chi-squared limit"):
            kw["maxchisq"] = c.real("maxchisq")
        d0 = 0
        while d0 < 3 and c.choose("self higher"):
            d0 += 1
        s = cls(x, y, dy, der=d0, **kw)
        d = 0
        while d < 4 and c.choose("ask higher"):
            d += 1
        r = s.derivative(d) if d != 1 or c.choose("explicit") else s.derivative()
        v = c.real("v")
        if d0 + d > 3:
            z = r(v, der=0) if isinstance(r, cls) else r.v
            c.ensure("beyond the third derivative: zero", num(z) == 0)
            return
        e = 1 if d0 + d < 3 and c.choose("evaluated with der=1") else 0
        cur, k, at = r(v, der=e) if e else r(v)
        c.ensure("order of the derivative", num(k) == d0 + d + e)
        c.ensure("at the same point", at == v)
        c.ensure("of the same curve", And(*[num(p) == q for p, q in zip(cur, s.curve)]))
        c.ensure("the object itself is unchanged", And(num(s.der) == d0, *[num(p) == q for p, q in zip(s.curve, (x, y, dy, kw.get("dx", 0), kw.get("maxchisq", c_npts)))]))
    finally:
        base.__init__, base.__call__ = keep


HARNESSES = [
    Harness("simplify_sum", h_simplify("Summation"), [F + "ExprMeta.__call__"]),
    Harness("simplify_product", h_simplify("Multiplication"), [F + "ExprMeta.__call__"]),
    Harness("simplify_composition", h_simplify("Composition"), [F + "ExprMeta.__call__"]),
    Harness("fitted_curves", h_fitted, [G + k for k in ("SmoothingSplineFunction.derivative", "SmoothingSplineFunction.__call__", "SmoothingSplineFunction.__init__",
            "GPRSplineFunction.derivative", "GPRSplineFunction.__call__", "GPRSplineFunction.__init__")]),
    Harness("leibniz_coefficients", h_leibniz, []),
    Harness("operators", h_operators, [F + "Function." + k for k in ("__neg__", "__lshift__", "__rshift__", "__rrshift__", "__add__", "__radd__",
            "__sub__", "__rsub__", "__mul__", "__rmul__", "truediv", "rtruediv", "__pow__")]),
    Harness("derivative_rules", h_derivative, [F + k + ".derivative" for k in ("ConstantFunction", "PowerFunction", "LogFunction", "ExponentialFunction",
            "Summation", "Multiplication", "Composition")]),
    Harness("evaluation", h_call, [F + k + ".__call__" for k in ("ConstantFunction", "PowerFunction", "LogFunction", "ExponentialFunction",
            "Summation", "Multiplication", "Composition")]),
]
