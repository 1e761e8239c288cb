"""Finite sums: general facts, proved once by induction for an arbitrary summand (HARNESSES below), used by instances"""
import z3
from pyvc import *
from harness import Harness


def sum_eq(c, label, f, g, m, given=None):
    """terms equal one by one (proved here), hence sums over 0 <= t < m equal"""
    t = c.int("t_eq")
    pre = [And(t >= 0, t < m)] + [x for x in (given(t) if given else [])]
    c.ensure(label, Implies(And(*pre), num(f(t)) == num(g(t))))
    return Sum(f, 0, m) == Sum(g, 0, m)


def head(f, m):
    """first term split off: m >= 1"""
    return Implies(num(m) >= 1, Sum(f, 0, m) == num(f(num(0))) + Sum(lambda t: f(t + 1), 0, num(m) - 1))


def rev(f, m):
    return Implies(num(m) >= 0, Sum(f, 0, m) == Sum(lambda t: f(m - 1 - t), 0, m))


def split(f, a, b):
    return Implies(And(num(a) >= 0, num(a) <= num(b)), Sum(f, 0, b) == Sum(f, 0, a) + Sum(lambda t: f(t + a), 0, num(b) - num(a)))


def _fun(c, nm):
    F = z3.Function(c.fname(nm), z3.IntSort(), z3.RealSort())
    return lambda t: SNum(F(num(t).e))


def h_head(c):
    f, m = _fun(c, "f"), c.int("m", lo=1)
    S0, S1 = (lambda k: Sum(f, 0, k)), (lambda k: Sum(lambda t: f(t + 1), 0, k))
    S0(num(0))
    c.ensure("one term", S0(num(1)) == f(num(0)) + S1(num(0)))
    c.assume(S0(m) == f(num(0)) + S1(m - 1))
    c.ensure("step", S0(m + 1) == f(num(0)) + S1(m))
    c.cover("end")


def h_rev(c):
    """Sum_{t<m} f(t) = Sum_{t<m} f(m-1-t); step by splitting off the first term of the right-hand side"""
    f, m = _fun(c, "f"), c.int("m", lo=0)
    S = Sum(f, 0, m)
    c.ensure("no terms", Implies(m == 0, And(S == 0, Sum(lambda t: f(m - 1 - t), 0, m) == 0)))
    c.assume(rev(f, m))
    c.assume(head(lambda t: f(m - t), m + 1))
    k = c.int("t")
    c.ensure("the rest, term by term", f(m - (k + 1)) == f(m - 1 - k))
    c.assume(Sum(lambda t: f(m - (t + 1)), 0, m) == Sum(lambda t: f(m - 1 - t), 0, m))
    c.ensure("step", Sum(f, 0, m + 1) == Sum(lambda t: f(m - t), 0, m + 1))
    c.cover("end")


def h_split(c):
    f, a, b = _fun(c, "f"), c.int("a", lo=0), c.int("b")
    g = lambda t: f(t + a)
    c.assume(b >= a)
    c.ensure("nothing more", Sum(f, 0, a) == Sum(f, 0, a) + Sum(g, 0, num(0)))
    c.assume(Sum(f, 0, b) == Sum(f, 0, a) + Sum(g, 0, b - a))
    c.ensure("step", Sum(f, 0, b + 1) == Sum(f, 0, a) + Sum(g, 0, b + 1 - a))
    c.cover("end")


def h_eq(c):
    f, g, m = _fun(c, "f"), _fun(c, "g"), c.int("m", lo=0)
    c.ensure("no terms", Sum(f, 0, num(0)) == Sum(g, 0, num(0)))
    c.assume(And(Sum(f, 0, m) == Sum(g, 0, m), f(m) == g(m)))
    c.ensure("step", Sum(f, 0, m + 1) == Sum(g, 0, m + 1))
    c.cover("end")


HARNESSES = [Harness("lemma: equal terms, equal sums", h_eq), Harness("lemma: first term of a sum", h_head),
             Harness("lemma: a sum backwards", h_rev), Harness("lemma: a sum in two pieces", h_split)]
