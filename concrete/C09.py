import os
import numpy as np
from lib import *
import mass, mass.off
from mass.off.util import RecipeBook, Recipe

BASE = ["x", "y", "z", "coefs", "filtValue"]
DT = np.dtype([("head", "i4"), ("coefs", "f4", (3,))])
FULL = np.dtype([("head", "i4"), ("filtValue", "f4"), ("b", "f4"), ("c", "f4")])


class Cls:
    pass


def mk(k, kind):
    """named functions with positional arguments, order-sensitive"""
    args = [f"a{i}" for i in range(k)]
    if kind == 0:
        return eval(f"lambda {', '.join(args)}: {' + '.join('%d*%s' % (7 ** i + 1, a) for i, a in enumerate(args)) or '5'}")
    if kind == 1:
        return eval(f"lambda {', '.join(args + ['extra=11'])}: {' + '.join('%d*%s' % (5 ** i + 2, a) for i, a in enumerate(args)) or '5'} + extra")
    return Method(k).f if k <= 4 else mk(k, 0)


class Method:
    def __init__(self, k): self.f = getattr(self, f"m{k}")
    def m0(self): return 9
    def m1(self, p): return p * 2
    def m2(self, p, q): return p - 3 * q
    def m3(self, p, q, r): return p - 3 * q + 10 * r
    def m4(self, p, q, r, s): return p - 3 * q + 10 * r - 100 * s


def source(rng):
    n = rng.size(5)
    return {k: rng.np.integers(-50, 50, n) for k in ("x", "y", "z")} | {"filtValue": rng.np.integers(0, 9, n)}


def valueof(nm, defs, src):
    if nm in defs:
        f, ings = defs[nm]
        return f(*[valueof2(i, src) for i in ings])
    return src[nm]


def valueof2(bound, src):
    """bound ingredient: a base name or the (f, ingredients) it was bound to when the recipe was added"""
    if isinstance(bound, str):
        return src[bound]
    f, ings = bound
    return f(*[valueof2(i, src) for i in ings])


@trial(weight=4)
def book_history(rng):
    cls = type("P", (), {})
    rb = RecipeBook(["x", "y", "z", "filtValue"], cls if rng.maybe() else None, None)
    defs, log = {}, []
    names = ["e", "f", "g", "h", "cutA", "cutB", "notcut", "cut!x"]
    for _ in range(rng.randint(1, 12)):
        nm = rng.choice(names)
        pool = ["x", "y", "z", "filtValue"] + list(defs) + (["nope"] if rng.maybe(0.15) else [])
        ings = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
        over = rng.maybe(0.4)
        before, b2 = dict(rb.craftedIngredients), dict(defs)
        given = rng.maybe(0.7)
        if given:
            f = mk(len(ings) + rng.choice([0, 0, 0, -1]) if ings and rng.maybe(0.2) else len(ings), rng.randint(0, 2))
        else:
            ings = list(dict.fromkeys(ings))
            if any("!" in i for i in ings):
                continue
            f = eval(f"lambda {', '.join(ings)}: {' + '.join('%d*%s' % (4 ** i + 1, a) for i, a in enumerate(ings)) or '3'}")
        import inspect
        nargs = len(inspect.signature(f).parameters)
        ok = "nope" not in ings and (nm not in defs or over) and (not given or nargs >= len(ings))
        log.append((nm, ings if given else None, over, ok, nargs))
        note(log=log)
        snap = {k: (r.f, dict(r.i2a)) for k, r in before.items()}
        ing_arg = list(ings) if given else None
        try:
            r = rb.add(nm, f, ing_arg, overwrite=over) if given else rb.add(nm, f, overwrite=over)
            got = True
        except AssertionError:
            got = False
        check(got == ok, "accepted", got, "expected", ok)
        if given:
            check(ing_arg == ings, "the caller's list was changed")
        for k, (ff, ii) in snap.items():
            check(before[k].f is ff and dict(before[k].i2a) == ii, "an existing recipe was altered", k)
        if ok:
            defs[nm] = (f, [defs.get(i, i) for i in ings])
            check(rb.craftedIngredients[nm] is r and rb[nm] is r, "name bound")
            check(all(rb.craftedIngredients[k] is v for k, v in before.items() if k != nm), "other recipes replaced")
        else:
            check(dict(rb.craftedIngredients) == before, "refused request changed the book")
        check(set(rb.keys()) == set(defs) and len(rb) == len(defs), "book contents")
    src = source(rng)
    path = None
    if rng.maybe(0.5):
        path = os.path.join(tmpdir(), "book.pkl")
        rb.propertyClass = None if rb.propertyClass is None else Cls
        try:
            rb.to_file(path)
        except Exception as e:
            check(False, "saving failed", repr(e))
        raises(Exception, rb.to_file, path)
        if rng.maybe():
            rb.to_file(path, overwrite=True)
    for book in [rb] + ([RecipeBook.from_file(path)] if path else []):
        check(list(book.keys()) == list(rb.keys()), "reloaded names")
        for nm, (f, ings) in defs.items():
            want = valueof2((f, ings), src)
            if "cut" in nm:
                want = np.asarray(want)
                for k in range(4):
                    g = book.craft("!" * k + nm, src)
                    same(np.asarray(g), want if k % 2 == 0 else np.logical_not(want), f"{'!' * k}{nm}")
            else:
                same(np.asarray(book.craft(nm, src)), np.asarray(want), nm)
        f = lambda y, x: 5 * y - x
        same(book.craft(f, src), 5 * src["y"] - src["x"], "function")
        check(set(book.keys()) == set(defs), "a temporary recipe stayed in the book")
        raises(Exception, book.craft, "nope", src)
        raises(Exception, book.craft, "!cutnope", src)
        raises(AssertionError, book.add, "!" + rng.choice(names), lambda x: x, None, rng.maybe())


@trial(weight=1)
def counts_calls(rng):
    """a recipe's function is called once per evaluation with the right arguments in order"""
    rb = RecipeBook(["x", "y"], None, None)
    calls = []

    def inner(y, x):
        calls.append(("inner", y, x))
        return 10 * y + x

    def outer(a, b, c):
        calls.append(("outer", a, b, c))
        return a, b, c
    rb.add("inner", inner)
    ings = [rng.choice(["x", "y", "inner"]) for _ in range(3)]
    rb.add("outer", outer, ings)
    src = {"x": rng.randint(0, 9), "y": rng.randint(0, 9)}
    v = dict(src, inner=10 * src["y"] + src["x"])
    check(rb.craft("outer", src) == tuple(v[i] for i in ings), "result", ings)
    check(len([c for c in calls if c[0] == "outer"]) == 1, "outer called once")
    check(all(c == ("inner", src["y"], src["x"]) for c in calls if c[0] == "inner"), "inner's arguments")


@trial(weight=1)
def coefs_view(rng):
    """'coefs' is the coefficient array, named coefficients are its elements"""
    n = rng.size(6)
    a = np.zeros(n, FULL)
    for k in FULL.names:
        a[k] = rng.np.integers(0, 99, n)
    rb = RecipeBook(["head", "filtValue", "coefs", "b", "c"], None, DT)
    rb.add("s", lambda filtValue, coefs: filtValue * 1000 + coefs.sum(axis=1))
    rb.add("t", lambda u, v: u + v[:, 1], ["s", "coefs"])
    s = a["filtValue"] * 1000 + a["filtValue"] + a["b"] + a["c"]
    same(rb.craft("s", a), s, "coefs and named")
    same(rb.craft("t", a), s + a["b"], "nested coefs")
