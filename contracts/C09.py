"""Recipes: RecipeBook.add followed by evaluation, for any number of ingredients; cut negation; refusals"""
import z3
from pyvc import *
from symnp import lazy
from loader import Loader
from harness import Harness

F = "mass/off/util.py:"
LOAD = Loader()
I, B = z3.IntSort(), z3.BoolSort()


class World:
    """names are numbers; which are base / crafted, and every recipe's value, are unknown"""

    def __init__(self, c):
        f = lambda nm, *s: z3.Function(c.fname(nm), *s)
        self.BASE, self.CR, self.REC, self.EVAL, self.SRC = f("base", I, B), f("crafted", I, B), f("rec", I, I), f("eval", I, I), f("src", I, I)
        c.axiom(forall(lambda k: SNum(self.REC(k.e)) >= 0, pats=lambda k: SNum(self.REC(k.e))))
        self.COEFS, self.VIEW = c.int("coefs"), c.int("view")

    def value(self, q):
        """what an ingredient name stands for"""
        q = num(q)
        return ite(SBool(self.CR(q.e)), SNum(self.EVAL(self.REC(q.e))), ite(q == self.COEFS, self.VIEW, SNum(self.SRC(q.e))))


class Nm(Ghost):
    def __init__(self, w, k): self.w, self.k = w, num(k)

    def __eq__(self, o):
        if isinstance(o, Nm):
            return self.k == o.k
        if o == "coefs":
            return self.k == self.w.COEFS
        if o == "self":
            return False
        return False
    __hash__ = None
    def __ne__(self, o): return Not(sbool(self == o))
    def _isinstance_(self, ts): return str in ts


class Val:
    def __init__(self, v): self.v = v


class Ent(Ghost):
    """a value stored in the ingredient-to-argument dictionary: 2*argument or 2*recipe+1"""
    def __init__(self, w, code): self.w, self.code = w, num(code)
    def _isinstance_(self, ts): return self.code % 2 == 1 if any(getattr(t, "__name__", "") == "Recipe" for t in ts) else bool(str in ts)

    def __call__(self, src):
        ctx().ensure("an ingredient recipe is evaluated on the same source", src is self.w.src)
        return Val(SNum(self.w.EVAL((self.code // 2).e)))


class Arg:
    def __init__(self, k): self.k = num(k)


class Crafted:
    def __init__(self, w):
        self.w, self.sets = w, []
    def contains(self, k):
        if isinstance(k, str):
            return self.w.taken if k == "new" else False
        return SBool(self.w.CR(k.k.e))
    def __getitem__(self, k):
        ctx().ensure("only existing recipes are looked up", self.contains(k))
        return Ent(self.w, 2 * SNum(self.w.REC(k.k.e)) + 1)
    def __setitem__(self, k, v): self.sets.append((k, v))
    def get(self, k, d=None): return self[k] if bool(self.contains(k)) else d
    def keys(self): return []


class Base:
    def __init__(self, w): self.w = w
    def contains(self, k): return SBool(self.w.BASE(k.k.e)) if isinstance(k, Nm) else False


class Dict:
    """insertion-ordered ingredient -> code (-1: absent) map: code array, key at position, position of key, size"""
    w = None

    def __init__(self, *a):
        self.a = z3.K(I, z3.IntVal(-1))
        self.key, self.pos, self.cnt = z3.K(I, z3.IntVal(-1)), z3.K(I, z3.IntVal(-1)), num(0)
    def code(self, q): return SNum(z3.Select(self.a, num(q).e))
    def keyat(self, j): return SNum(z3.Select(self.key, num(j).e))
    def posof(self, q): return SNum(z3.Select(self.pos, num(q).e))
    def contains(self, k): return self.code(k.k) >= 0

    def __setitem__(self, k, v):
        new = sbool(self.code(k.k) < 0).e
        self.a = z3.Store(self.a, k.k.e, (2 * v.k if isinstance(v, (Arg, Nm)) else v.code).e)
        self.key = z3.If(new, z3.Store(self.key, self.cnt.e, k.k.e), self.key)
        self.pos = z3.If(new, z3.Store(self.pos, k.k.e, self.cnt.e), self.pos)
        self.cnt = num(ite(SBool(new), self.cnt + 1, self.cnt))

    def __getitem__(self, k):
        if not bool(self.contains(k)):
            raise KeyError(k)
        return Ent(self.w, self.code(k.k))
    def slen(self): return self.cnt
    def elem(self, j): return Nm(self.w, self.keyat(j))
    def keys(self): return self

    def items(self):
        return SSeq(self.cnt, lambda j: (self.elem(j), Ent(self.w, self.code(self.keyat(j)))))

    def coherent(self):
        return [("positions", forall(lambda q: Implies(self.code(q) >= 0, And(self.posof(q) >= 0, self.posof(q) < self.cnt, self.keyat(self.posof(q)) == q)),
                                     pats=lambda q: self.posof(q))),
                ("keys", forall(lambda j: Implies(And(j >= 0, j < self.cnt), And(self.code(self.keyat(j)) >= 0, self.posof(self.keyat(j)) == j)),
                                pats=lambda j: self.keyat(j))), ("size", self.cnt >= 0)]

    def havoc(self, c):
        self.a, self.key, self.pos = (z3.Array(c.fname(x), I, I) for x in ("i2a", "i2akey", "i2apos"))
        self.cnt = c.int("i2acnt")

    def havoc_values(self, c): self.a = z3.Array(c.fname("i2a"), I, I)


class Source:
    """the data the base ingredients are read from"""
    def __init__(self, w): self.w = w
    def __getitem__(self, k): return Val(SNum(self.w.SRC(k.k.e)))

    def view(self, dt):
        ctx().ensure("the coefficient view uses the book's dtype", dt == "COEFS-DTYPE")
        w = self.w

        class V:
            def __getitem__(s, k):
                ctx().ensure("the coefficient view is read for the coefficients", k == "coefs" if isinstance(k, str) else k.k == w.COEFS)
                return Val(w.VIEW)
        return V()


class Fn:
    """the recipe's function: records what it is called with"""
    def __init__(self): self.calls = []
    def _star_(self, a):
        self.calls.append(a)
        return "RESULT"
    def __call__(self, *a): return self._star_(GSeq.of(list(a)))


class Names(GSeq):
    def contains(self, x): return False


def fresh_names(c, w, nm):
    fn = z3.Function(c.fname(nm), I, I)
    n = c.int("n_" + nm, lo=0)
    c.axiom(forall(lambda k: SNum(fn(k.e)) >= 0, pats=lambda k: SNum(fn(k.e))))
    return Names(n, lambda k: Nm(w, SNum(fn(num(k).e))))


def book(c):
    m = LOAD.load("mass.off.util")
    w = World(c)
    w.taken, Dict.w = c.bool("name taken"), w
    fn, sig = Fn(), fresh_names(c, w, "argnames")

    class Insp:
        @staticmethod
        def signature(f):
            class S:
                parameters = sig
            c.ensure("the signature is the function's", f is fn)
            return S

    class Coll:
        OrderedDict = Dict
    m.inspect, m.collections = Insp, Coll
    m.dict = Dict
    rb = m.RecipeBook(Base(w), None, "COEFS-DTYPE")
    rb.craftedIngredients = Crafted(w)
    inv = z3.Function(c.fname("argpos"), I, I)
    w.INV = lambda x: SNum(inv(num(x).e))
    c.axiom(forall(lambda k: w.INV(sig.elem(k).k) == k, pats=lambda k: sig.elem(k).k))     # argument names are distinct
    w.src = Source(w)
    return m, w, rb, fn, sig


def h_add(c):
    m, w, rb, fn, sig = book(c)
    given = c.choose("ingredients given")
    ings = fresh_names(c, w, "ingredients") if given else sig
    overwrite = c.choose("overwrite")
    temp = c.choose("temporary")
    c.ghost, c.given = (w, ings), given
    fits = ings.n <= sig.n
    j, n = c.int("j"), num(ings.n)
    c.assume(And(j >= 0, j < n))
    known = lambda k: Or(SBool(w.BASE(ings.elem(k).k.e)), SBool(w.CR(ings.elem(k).k.e)))
    try:
        r = rb.add("__temp__" if temp else "new", fn, ings if given else None, overwrite=overwrite)
    except AssertionError:
        why = [Not(fits)] if given else []
        if not temp:
            why.append(w.taken if not overwrite else False)
        c.ensure("refused only for an unknown ingredient, too many, or a taken name",
                 Or(*why, exists(lambda k: And(k >= 0, k < n, Not(known(k))))))
        c.ensure("a refused recipe changes nothing", not rb.craftedIngredients.sets)
        return
    c.cover("accepted")
    c.ensure("every ingredient is known", known(j))
    if not temp and not overwrite:
        c.ensure("the name was free", Not(w.taken))
    st = rb.craftedIngredients.sets
    c.ensure("exactly the new name is bound to the new recipe", (not st) if temp else (len(st) == 1 and st[0][0] == "new" and st[0][1] is r))
    res = r(w.src)
    c.ensure("evaluation calls the function once and returns its result", len(fn.calls) == 1 and res == "RESULT")
    a = GSeq.of(fn.calls[0])
    c.ensure("one argument per ingredient", num(a.n) == n)
    v = a.elem(j)
    c.ensure("argument j is the value of ingredient j", v.v == w.value(ings.elem(j).k))


def inv_collect(e):
    w, ings = ctx().ghost
    d = e.i2a
    q = lambda k: ings.elem(k).k
    return [("known so far", forall(lambda k: Implies(And(k >= 0, k < e._k), And(Or(SBool(w.BASE(q(k).e)), SBool(w.CR(q(k).e))), d.code(q(k)) >= 0)),
                                    pats=lambda k: q(k))),
            *(d.coherent() if ctx().given else [("order", And(d.cnt == e._k, forall(lambda k: Implies(And(k >= 0, k < e._k), d.keyat(k) == q(k)), pats=lambda k: q(k)),
              forall(lambda x: Implies(d.code(x) >= 0, And(w.INV(x) >= 0, w.INV(x) < e._k, q(w.INV(x)) == x)), pats=lambda x: d.code(x))))]),
            ("only arguments", forall(lambda x: Or(d.code(x) == -1, And(d.code(x) >= 0, d.code(x) % 2 == 0)), pats=lambda x: d.code(x)))]


def inv_recipes(e):
    w, ings = ctx().ghost
    d = e.i2a
    if num(e._k).e.eq(z3.IntVal(0)):
        w.a0 = d.a
    a0, rec = w.a0, lambda x: SBool(w.CR(num(x).e))
    p_ = d.posof if ctx().given else w.INV
    return [("recipes", forall(lambda x: d.code(x) == ite(And(SNum(z3.Select(a0, x.e)) >= 0, rec(x), p_(x) < e._k),
                                                           2 * SNum(w.REC(x.e)) + 1, SNum(z3.Select(a0, x.e))), pats=lambda x: d.code(x)))]


def inv_call(e):
    w, ings = ctx().ghost
    a = GSeq.of(e.args)
    k0 = num(e._k)
    out = [("count", num(a.n) == k0)]
    if isinstance(e.args, GSeq):
        out.append(("values", forall(lambda k: Implies(And(k >= 0, k < k0), a.elem(k).v == w.value(ings.elem(k).k)), pats=lambda k: ings.elem(k).k)))
    return out


class ValSeq(GSeq):
    def append(self, x):
        n, f = self.n, self.f
        self.f, self.n = (lambda k: Val(ite(num(k) == n, x.v, f(k).v))), n + 1


def mk_args(c, e):
    fn = z3.Function(c.fname("argv"), I, I)
    return ValSeq(c.int("nargs", lo=0), lambda k: Val(SNum(fn(num(k).e))))


SPECS = {("add", 0): LoopSpec(inv_collect, types={"ingredient": lambda c, e: None}, havoc=lambda c, e: e.i2a.havoc(c), handles=("i2a",)),
         ("add", 1): LoopSpec(inv_collect, types={"ingredient": lambda c, e: None}, havoc=lambda c, e: e.i2a.havoc(c), handles=("i2a",)),
         ("add", 2): LoopSpec(inv_recipes, havoc=lambda c, e: e.i2a.havoc_values(c), handles=("i2a", "recipe", "self")),
         ("__call__", 0): LoopSpec(inv_call, types={"args": mk_args, "v": lambda c, e: None, "ingredientSource_coefs_view": lambda c, e: None})}


# ---------------------------------------------------------------- craft
class CutName:
    """'!' repeated k times before a cut recipe's name"""
    def __init__(self, base, k): self.base, self.k = base, k
    def contains(self, s): return s == "cut"

    def lstrip(self, ch):
        assert ch == "!"
        return self.base

    def slen(self): return num(self.k) + len(self.base)
    def startswith(self, s):
        assert s == "!"
        return self.k > 0

    def count(self, s):
        assert s == "!"
        return self.k


def h_craft(c):
    m = LOAD.load("mass.off.util")
    rb = m.RecipeBook(["p"], None, None)
    src, A = object(), c.int("n", lo=0)
    g = lazy((A,), lambda i: SBool(z3.Function("cutval", I, B)(num(i).e)), bool)
    calls = []

    def rec(nm, v):
        def f(s):
            calls.append((nm, s))
            return v
        return f
    rb.craftedIngredients = {"cutA": rec("cutA", g), "energy": rec("energy", "E")}
    kind = c.choose("a cut")
    if kind:
        k = c.int("bangs", lo=0)
        nm = CutName("cutA" if c.choose("known") else "cutB", k)
        try:
            r = rb.craft(nm, src)
        except (AssertionError, KeyError):
            c.ensure("only an unknown cut is refused", nm.base == "cutB")
            return
        c.ensure("the named recipe is evaluated once on the source", calls == [("cutA", src)] and nm.base == "cutA")
        i = c.int("i")
        c.assume(And(i >= 0, i < A))
        want = SBool(z3.Function("cutval", I, B)(i.e))
        want = Or(And(k % 2 == 0, want), And(k % 2 == 1, Not(want)))
        c.ensure("'!' negates once per '!'", sbool(r.at(i)) == want if isinstance(want, bool) else SBool(sbool(r.at(i)).e == sbool(want).e))
        return
    if c.choose("a plain recipe"):
        c.ensure("a plain recipe gives its value", rb.craft("energy", src) == "E" and calls == [("energy", src)])
        return
    if c.choose("unknown"):
        try:
            rb.craft("nothing", src)
            c.ensure("unknown names are refused", False)
        except Exception as e:
            c.ensure("unknown names are refused", not calls and "Violation" not in type(e).__name__)
        return
    f = lambda p: p
    got = []

    def add(nm, fn, ingr=None):
        got.append((nm, fn, ingr))
        return rec("temp", "T")
    rb.add = add
    c.ensure("a function is evaluated through a temporary recipe", rb.craft(f, src) == "T" and calls == [("temp", src)] and got[0][0] == "__temp__"
             and got[0][1] is f and got[0][2] is None)


def h_bang(c):
    """names that would collide with negation cannot be registered"""
    m = LOAD.load("mass.off.util")
    rb = m.RecipeBook(["p"], None, None)
    import inspect, collections
    m.inspect, m.collections = inspect, collections
    m.__dict__.pop("dict", None)

    class P: pass
    rb.propertyClass = P
    r1 = rb.add("cutA", lambda p: p)
    for nm in ("!cutA", "!!x"):
        try:
            rb.add(nm, lambda p: p, overwrite=c.choose("overwrite"))
            c.ensure("names starting with '!' are refused", False)
        except AssertionError:
            c.ensure("refused without change", list(rb.craftedIngredients) == ["cutA"] and rb.craftedIngredients["cutA"] is r1 and not hasattr(P, nm))
    asked = []
    ds = P()
    ds.getAttr = lambda a, inds: asked.append((a, type(inds).__name__)) or "V"
    c.ensure("the new attribute of a channel is that recipe's value for all records", P.cutA.fget(ds) == "V" and asked == [("cutA", "NoCutInds")])
    P.taken = 5
    rb.add("taken", lambda cutA: cutA)
    c.ensure("existing class attributes are not replaced", P.taken == 5)
    c.ensure("look-ups", rb["cutA"] is r1 and len(rb) == 2 and list(rb.keys()) == ["cutA", "taken"])


HARNESSES = [
    Harness("add_and_evaluate", h_add, [F + "RecipeBook.add", F + "Recipe.__init__", F + "Recipe._setIngredientToRecipe", F + "Recipe.__call__"], specs=SPECS),
    Harness("craft", h_craft, [F + "RecipeBook.craft", F + "RecipeBook._craftCut", F + "RecipeBook._craftWithFunction"]),
    Harness("names", h_bang, [F + "RecipeBook.add", F + "RecipeBook.__getitem__", F + "RecipeBook.keys", F + "RecipeBook.__len__"], bounded="concrete names"),
]
