"""Reads the real source of /repo, instruments it mechanically and executes it against the symbolic numpy.

What the instrumentation does (and nothing else):
  * every `for`/`while` statement is routed through a loop controller (pyvc.LoopRT) so that an annotated loop can
    be cut at its invariant; unannotated loops over concrete sequences run as written;
  * list comprehensions / generator expressions over symbolic sequences are evaluated element-wise;
  * `len range int float min max sum abs enumerate zip isinstance any all sorted round str bool list tuple reversed map`
    are replaced by versions that also accept symbolic values;
  * `numpy` is replaced by symnp.np; imports of other third-party packages are replaced by inert stubs;
  * f-strings are evaluated lazily and tolerate symbolic values (they only feed messages);
  * .pyx files: cdef declarations, C types and compiler directives are stripped (pyx_to_py), C integer
    arithmetic is treated as mathematical.
"""
import ast, builtins, functools, operator, os, re, sys, types, math
import numpy as rnp
import z3
import pyvc
from pyvc import (Not, Implies, exists, Sym, SNum, SBool, SBV, SName, LoopRT, SRange, SSeq, is_sym, num, sbool, ite, sint, sfloat, rint,
                  Unsupported, And, Or, ctx)
import symnp
from symnp import SArr, SRec, as_arr

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- AST
def target_names(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            target_names(e, out)
    elif isinstance(t, ast.Starred):
        target_names(t.value, out)


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Assign(self, n):
            for t in n.targets:
                target_names(t, out)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            target_names(n.target, out)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            target_names(n.target, out)
            self.generic_visit(n)

        def visit_For(self, n):
            target_names(n.target, out)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            target_names(n.target, out)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    target_names(i.optional_vars, out)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    for s in stmts:
        V().visit(s)
    return {n for n in out if not n.startswith("__L")}


def appended_names(stmts):
    """local names on which .append/.extend/.insert/.remove/.add is called"""
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                    and x.func.attr in ("append", "extend", "insert", "remove", "add"):
                out.add(x.func.value.id)
    return out


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.fnlocals = [set()]
        self.stack = []
        self.count = [0]
        self.uid = 0
        self.glob = [set()]

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.count.append(0)
        out = assigned_names(n.body)
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                out -= set(x.names)
        self.fnlocals.append(out)
        n.body = [self.visit(s) for s in n.body]
        n.body = flatten(n.body)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.fnlocals.pop()
        self.count.pop()
        self.stack.pop()
        return n

    def _begin(self, it, is_while, k, names):
        fid = ".".join(self.stack) or "<module>"
        return ast.Call(ast.Name("__pyvc_loop__", ast.Load()),
                        [ast.Constant(fid), ast.Constant(k), it, ast.Constant(tuple(names)), ast.Constant(is_while), ast.Constant(tuple(self.mut))], [])

    def _havoc(self, v, names):
        # (a, b) = L.havoc(locals()) when symbolic
        call = ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "havoc", ast.Load()),
                        [ast.Call(ast.Name("__pyvc_locals__", ast.Load()), [], [])], [])
        if names:
            asg = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], call)
        else:
            asg = ast.Expr(call)
        return ast.If(ast.Compare(ast.Attribute(ast.Name(v, ast.Load()), "mode", ast.Load()), [ast.Eq()],
                                  [ast.Constant("sym")]), [asg], [])

    def visit_For(self, n):
        if not self.stack or len(self.count) == 1:
            return self.generic_visit(n)
        k = self.count[-1]
        self.count[-1] += 1
        self.uid += 1
        v = f"__L{self.uid}"
        tn = set()
        target_names(n.target, tn)
        body = flatten([self.visit(s) for s in n.body])
        orelse = flatten([self.visit(s) for s in n.orelse])
        names = assigned_names(n.body) - tn
        self.mut = sorted((appended_names(n.body) & self.fnlocals[-1]) - names - tn)
        names = sorted(names) + self.mut
        begin = ast.Assign([ast.Name(v, ast.Store())], self._begin(self.visit(n.iter), False, k, names))
        loop = ast.For(n.target, ast.Name(v, ast.Load()), [self._havoc(v, names)] + body,
                       [self._havoc(v, names)] + orelse)
        fin = ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "leave", ast.Load()), [], []))
        tr = ast.Try([loop], [], [], [fin])
        return [ast.copy_location(x, n) for x in (begin, tr)]

    def visit_While(self, n):
        if not self.stack or len(self.count) == 1:
            return self.generic_visit(n)
        k = self.count[-1]
        self.count[-1] += 1
        self.uid += 1
        v = f"__L{self.uid}"
        test = self.visit(n.test)
        body = flatten([self.visit(s) for s in n.body])
        orelse = flatten([self.visit(s) for s in n.orelse])
        names = assigned_names(n.body)
        self.mut = sorted((appended_names(n.body) & self.fnlocals[-1]) - names)
        names = sorted(names) + self.mut
        begin = ast.Assign([ast.Name(v, ast.Store())], self._begin(ast.Constant(None), True, k, names))
        setex = ast.Assign([ast.Attribute(ast.Name(v, ast.Load()), "exited", ast.Store())], ast.Constant(True))
        guard = ast.If(ast.UnaryOp(ast.Not(), test), [setex, ast.Break()], [])
        loop = ast.For(ast.Name(v + "d", ast.Store()), ast.Name(v, ast.Load()),
                       [self._havoc(v, names), guard] + body, [])
        fin = ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "leave", ast.Load()), [], []))
        tr = ast.Try([loop], [], [], [fin])
        out = [begin, tr]
        if orelse:
            out.append(ast.If(ast.Attribute(ast.Name(v, ast.Load()), "exited", ast.Load()), orelse, []))
        return [ast.copy_location(x, n) for x in out]

    def _comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].is_async and self.stack and len(self.count) > 1 \
                and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)):
            g = n.generators[0]
            if isinstance(g.target, ast.Name):
                args = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
                mk = lambda e: ast.Lambda(args, e)
            else:
                # tuple targets: one-argument lambda over a nested comprehension would change scoping; use a helper lambda
                nm = set()
                target_names(g.target, nm)
                order = sorted(nm)

                def mk(e):
                    # (lambda __t: [e for <target> in (__t,)][0])
                    args1 = ast.arguments([], [ast.arg("__t")], None, [], [], None, [])
                    inner = ast.ListComp(e, [ast.comprehension(g.target, ast.Tuple([ast.Name("__t", ast.Load())], ast.Load()), [], 0)])
                    return ast.Lambda(args1, ast.Subscript(inner, ast.Constant(0), ast.Load()))
            cond = ast.Constant(None)
            if g.ifs:
                ce = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                cond = mk(ce)
            call = ast.Call(ast.Name("__pyvc_comp__", ast.Load()), [ast.Constant(kind), mk(n.elt), g.iter, cond], [])
            return ast.copy_location(call, n)
        return n

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) \
                and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("__pyvc_join__", ast.Load()), [f.value, n.args[0]], []), n)
        if len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords and self.stack:
            return ast.copy_location(ast.Call(ast.Name("__pyvc_star__", ast.Load()), [f, n.args[0].value], []), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), v.format_spec if v.format_spec is not None else ast.Constant("")], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name("__pyvc_fstr__", ast.Load()), parts, []), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Name("__pyvc_in__", ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, n)
        return n


def flatten(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out += flatten(x)
        elif x is not None:
            out.append(x)
    return out


class RW2(Rewriter):
    """Rewriter whose generic_visit flattens statement lists"""

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new.extend(flatten(v))
                            continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                new = self.visit(old)
                if new is None:
                    delattr(node, field)
                else:
                    setattr(node, field, new)
        return node


# ---------------------------------------------------------------- run-time helpers
def rt_loop(fid, k, it, names, is_while, mut=()):
    fr = sys._getframe(1)
    return LoopRT(fid, k, it, fr, names, is_while, mut)


def rt_star(f, a):
    """f(*a)"""
    if hasattr(a, "slen") and is_sym(a.slen()):
        if not hasattr(type(f), "_star_"):
            raise pyvc.Unsupported("call with a symbolic number of arguments")
        return f._star_(a)
    return f(*a)


def rt_locals():
    return dict(sys._getframe(1).f_locals)


def rt_comp(kind, f, it, cond):
    if kind == "set":
        return b_set(rt_comp("list", f, it, cond))
    if isinstance(it, SFilt):
        return it.then(f, cond)
    if hasattr(it, "as_filter"):
        return it.as_filter().then(f, cond)
    if hasattr(it, "slen") and is_sym(it.slen()):
        if cond is not None:
            return SFilt(it.slen(), it.elem, lambda k: True).then(f, cond)
        return comp_now(f, it) if kind == "list" else SSeq(it.slen(), lambda k: f(it.elem(k)))
    if cond is None:
        return (f(x) for x in it) if kind == "gen" else [f(x) for x in it]
    if kind == "gen" and not isinstance(it, (list, tuple, SArr, GList, rnp.ndarray)):
        return (f(x) for x in it if cond(x))
    out, guarded = [], False
    for g0, x in (it.items if isinstance(it, GList) else ((True, y) for y in it)):
        if g0 is not True and not isinstance(x, Sym) and not isinstance(x, tuple):
            if not g0:
                continue
            g0 = True
        g = cond(x)
        if isinstance(g, SName):
            g = g != ""
        elif isinstance(g, SNum):
            g = g != 0
        if isinstance(g, SBool):
            g = And(g0, g)
            e = z3.simplify(sbool(g).e)
            if z3.is_false(e):
                continue
            if not z3.is_true(e):
                c = ctx()
                try:
                    c.noforks += 1
                    v = f(x)
                except (pyvc.Unsupported, Exception):
                    if not bool(g):
                        continue
                    v, g = None, True
                finally:
                    c.noforks -= 1
                if g is True:
                    v = f(x)
                else:
                    guarded = True
                out.append((g, v))
                continue
            g = True
        if not bool(g):
            continue
        if g0 is not True:
            guarded = True
        out.append((g0, f(x)))
    if guarded:
        return GList(out)
    return [v for _, v in out]


def comp_now(f, it):
    """[f(x) for x in it], each element as of now: evaluated once for an arbitrary index, which is then replaced. An element
    that is not a plain term is evaluated when used, as an expression over objects the code must not change meanwhile."""
    c, n = ctx(), num(it.slen())
    k0 = z3.Int(c.fname("ci"))
    late = SSeq(it.slen(), lambda k: f(it.elem(k)))
    np_, na = len(c.pc), len(c.ax)
    c.pc.append(sbool(And(SNum(k0) >= 0, SNum(k0) < n)).e)
    c.noforks += 1
    try:
        v = f(it.elem(SNum(k0)))
    except pyvc.PathDone:
        raise
    except Exception:
        return late
    finally:
        del c.pc[np_:]
        c.noforks -= 1
    if len(c.ax) != na and any(str(k0) in str(x) for x in c.ax[na:]):
        return late
    sub = lambda t, k: z3.substitute(t, (k0, num(k).e))
    if type(v) is SNum:
        return SSeq(it.slen(), lambda k: SNum(sub(v.e, k)))
    if type(v) is SBool:
        return SSeq(it.slen(), lambda k: SBool(sub(v.e, k)))
    if hasattr(v, "_subst_"):
        return SSeq(it.slen(), lambda k: v._subst_(lambda t: sub(t, k)))
    return late


def truth(g):
    if isinstance(g, SName):
        return g != ""
    if isinstance(g, SNum):
        return g != 0
    return g if isinstance(g, SBool) else bool(g)


class SFilt:
    """elements elem(k) of a symbolic-length sequence, those with kept(k), in order; then sorted by keys (most significant
    first; stable)"""

    def __init__(self, n, elem, kept, keys=()):
        self.n, self.elem_, self.kept, self.keys = n, elem, kept, tuple(keys)

    def then(self, f, cond):
        if self.keys:
            raise Unsupported("comprehension over a sorted symbolic list")
        e, k0 = self.elem_, self.kept

        def kept(k):
            c = ctx()
            c.noforks += 1
            try:
                return And(k0(k), truth(cond(e(k)))) if cond is not None else k0(k)
            finally:
                c.noforks -= 1
        return SFilt(self.n, lambda k: f(e(k)), kept)

    def contains(self, x):
        c = ctx()
        j = z3.Int(c.fname("el"))
        J = SNum(j)
        c.noforks += 1
        try:
            body = And(J >= 0, J < self.n, self.kept(J), sb_eq(self.elem_(J), x))
        finally:
            c.noforks -= 1
        return SBool(z3.Exists([j], sbool(body).e))

    def __bool__(self):
        j = z3.Int(ctx().fname("el"))
        J = SNum(j)
        return ctx().decide(z3.Exists([j], sbool(And(J >= 0, J < self.n, self.kept(J))).e))

    def sorted(self, key=None):
        return SFilt(self.n, self.elem_, self.kept, (key or (lambda v: v),) + self.keys)

    def sort(self, key=None):
        self.keys = (key or (lambda v: v),) + self.keys

    def as_filter(self): return self

    def before(self, a, b):
        """element index a comes before b because of the sort keys (equal keys keep the original order)"""
        return self._lex([k for k in self.keys], self.elem_(a), self.elem_(b), a < b)

    def _lex(self, keys, x, y, last):
        if not keys:
            return last
        p, q = keys[0](x), keys[0](y)
        rest = self._lex(keys[1:], x, y, last)
        p, q = (p if isinstance(p, tuple) else (p,)), (q if isinstance(q, tuple) else (q,))
        for u, v in reversed(list(zip(p, q))):
            rest = Or(u < v, And(sb_eq(u, v), rest))
        return rest

    def __iter__(self): raise Unsupported("iteration over a filtered symbolic list")
    def __len__(self): raise Unsupported("length of a filtered symbolic list")


class SPred:
    """a set known by its membership predicate"""

    def __init__(self, f): self.f = f
    def contains(self, x): return self.f(x)

    @staticmethod
    def of(o):
        if hasattr(o, "contains"):
            return o
        return GSet.of(o)

    def __sub__(self, o):
        o = SPred.of(o)
        return SPred(lambda x: And(self.f(x), Not(o.contains(x))))

    def __rsub__(self, o): return SPred(SPred.of(o).contains) - self

    def __and__(self, o):
        o = SPred.of(o)
        return SPred(lambda x: And(self.f(x), o.contains(x)))

    __rand__ = __and__

    def __or__(self, o):
        o = SPred.of(o)
        return SPred(lambda x: Or(self.f(x), o.contains(x)))

    __ror__ = __or__

    def difference(self, *os):
        r = self
        for o in os:
            r = r - o
        return r

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & o
        return r

    def copy(self): return SPred(self.f)
    def difference_update(self, *o): self.f = self.difference(*o).f
    def intersection_update(self, *o): self.f = self.intersection(*o).f
    def update(self, *o): self.f = self.union(*o).f
    def __iter__(self): raise Unsupported("iteration over a symbolic set")
    def __len__(self): raise Unsupported("size of a symbolic set")


class GList:
    """a filtered list whose membership conditions are symbolic: (guard, value) pairs.
    Consumers that do not know it see an ordinary list (the guards are then decided by case split)."""

    def __init__(self, items):
        self.items = list(items)

    def _mat(self):
        if any(g is not True for g, _ in self.items):
            self.items = [(True, v) for g, v in self.items if g is True or bool(g)]
        return [v for _, v in self.items]

    def slen(self):
        n = 0
        for g, _ in self.items:
            n = n + (1 if g is True else ite(g, 1, 0))
        return n

    def __len__(self): return len(self._mat())
    def __iter__(self): return iter(self._mat())
    def __getitem__(self, k): return self._mat()[k]
    def elem(self, k): return self._mat()[k]
    def __bool__(self): return bool(Or(*[g for g, _ in self.items])) if self.items else False
    def __add__(self, o): return self._mat() + list(o)
    def __radd__(self, o): return list(o) + self._mat()

    def __eq__(self, o):
        return self._mat() == (o._mat() if isinstance(o, GList) else o)

    __hash__ = None

    def __getattr__(self, k):
        if k.startswith("__") or k not in dir(list):
            raise AttributeError(k)
        m = self._mat()
        f = getattr(m, k)

        def call(*a, **kw):
            r = f(*a, **kw)
            self.items = [(True, v) for v in m]
            return r
        return call

    def contains(self, x):
        return Or(*[And(g, sb_eq(v, x)) for g, v in self.items]) if self.items else False


class GSet(GList):
    """set of symbolic values; duplicates are kept (only membership matters until it is iterated)"""

    def _mat(self):
        out = []
        for g, v in self.items:
            if (g is True or bool(g)) and not any(bool(sb_eq(v, y)) for y in out):
                out.append(v)
        self.items = [(True, v) for v in out]
        return out

    def slen(self):
        n = 0
        for i, (g, v) in enumerate(self.items):
            dup = [And(g2, sb_eq(v, v2)) for g2, v2 in self.items[:i]]
            n = n + ite(And(g, Not(Or(*dup)) if dup else True), 1, 0)
        return n

    @staticmethod
    def of(o):
        if isinstance(o, GList):
            return GSet(o.items)
        return GSet([(True, v) for v in o])

    def __sub__(self, o):
        o = GSet.of(o)
        return GSet([(And(g, Not(o.contains(v))), v) for g, v in self.items])

    def __rsub__(self, o): return GSet.of(o) - self
    def __and__(self, o):
        o = GSet.of(o)
        return GSet([(And(g, o.contains(v)), v) for g, v in self.items])

    __rand__ = __and__

    def __or__(self, o): return GSet(self.items + GSet.of(o).items)
    __ror__ = __or__

    def difference(self, *os):
        r = self
        for o in os:
            r = r - o
        return r

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & o
        return r

    def issubset(self, o):
        o = GSet.of(o)
        return And(*[Implies(g, o.contains(v)) for g, v in self.items]) if self.items else True

    __le__ = issubset
    def issuperset(self, o): return GSet.of(o).issubset(self)
    __ge__ = issuperset
    def isdisjoint(self, o): return Not(bool_or(self & o))
    def add(self, x): self.items.append((True, x))

    def __eq__(self, o):
        return And(self.issubset(o), GSet.of(o).issubset(self))

    def __ne__(self, o): return Not(self == o)
    __hash__ = None


def bool_or(s):
    return Or(*[g for g, _ in s.items]) if s.items else False


def b_filter(f, it):
    return rt_comp("list", lambda x: x, it, f if f is not None else (lambda x: x))


def b_set(*a):
    if not a:
        return builtins.set()
    x = a[0]
    if isinstance(x, GList):
        return GSet.of(x)
    if isinstance(x, (SFilt, SPred)) or (hasattr(x, "contains") and not hasattr(x, "as_filter")):
        return SPred(x.contains)
    if isinstance(x, SSeq) or hasattr(x, "as_filter"):
        return SPred((x.as_filter() if hasattr(x, "as_filter") else SFilt(x.slen(), x.elem, lambda k: True)).contains)
    l = list(x)
    return GSet.of(l) if any(is_sym(v) for v in l) else builtins.set(l)


def g_reduce(f, it, *init):
    if isinstance(it, GList) and init and any(g is not True for g, _ in it.items):
        acc = init[0]
        unit = f in (operator.or_, operator.add, operator.xor)
        for g, v in it.items:
            acc = f(acc, v) if g is True else f(acc, ite(g, v, 0)) if unit else ite(g, f(acc, v), acc)
        return acc
    return functools.reduce(f, list(it) if isinstance(it, GList) else it, *init)


def rt_join(sep, it):
    if hasattr(it, "_joined_"):
        return it._joined_(sep)
    if isinstance(it, GList):
        return "<sym>"
    l = list(it)
    if isinstance(sep, (str, bytes)) and not any(is_sym(x) for x in l):
        return sep.join(l)
    return "<sym>"


def rt_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if isinstance(v, Sym):
                out.append(f"<{getattr(v, 'e', v.__class__.__name__)}>")
            else:
                try:
                    if conv == 114:
                        v = repr(v)
                    elif conv == 115:
                        v = builtins.str(v)
                    out.append(format(v, spec))
                except pyvc.Unsupported:
                    out.append("<sym>")
                except TypeError:
                    if deep_sym(v):
                        out.append("<sym>")
                    else:
                        raise
        else:
            out.append(p)
    return "".join(out)


def deep_sym(v):
    return is_sym(v) or (isinstance(v, (tuple, list)) and any(deep_sym(x) for x in v))


def rt_in(x, seq):
    if isinstance(seq, SArr):
        if not is_sym(seq.shape[0]):
            return Or(*[sb_eq(seq.at(i), x) for i in range(seq.shape[0])]) if seq.shape[0] else False
        return symnp.any_(seq == x)
    if isinstance(seq, (GList, SFilt, SPred)) or hasattr(seq, "contains"):
        return seq.contains(x)
    if isinstance(seq, (list, tuple, set, frozenset)) and (is_sym(x) or any(is_sym(y) for y in seq)):
        if not seq:
            return False
        return Or(*[sb_eq(y, x) for y in seq])
    if isinstance(seq, (dict, type({}.keys()))) and (is_sym(x) or any(is_sym(y) for y in seq)):
        if not seq:
            return False
        return Or(*[sb_eq(y, x) for y in seq])
    return x in seq


def sb_eq(a, b):
    if a is b:
        return True
    r = a == b
    if r is NotImplemented:
        r = b == a
    return r if isinstance(r, (bool, SBool)) else bool(r)


class _B:
    """builtin type usable both as callable and in isinstance"""

    def __init__(self, real, f):
        self._builtin_ = real
        self.f = f
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __eq__(self, o):
        return self._builtin_ is getattr(o, "_builtin_", o)

    def __hash__(self):
        return hash(self._builtin_)

    def __getattr__(self, k):
        return getattr(self._builtin_, k)

    def __or__(self, o):
        return self

    def __getitem__(self, k):
        return self


def b_len(x):
    if isinstance(x, SArr):
        return x.shape[0]
    if hasattr(x, "slen"):
        return x.slen()
    return builtins.len(x)


def b_range(*a):
    a = tuple(x._as_scalar_() if isinstance(x, SArr) else x for x in a)
    a = tuple(num(x) if isinstance(x, (SBV, SBool)) else x for x in a)
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    return builtins.range(*a)


def b_min(*a, **k):
    return _mm(a, k, pyvc.smin2, builtins.min)


def b_max(*a, **k):
    return _mm(a, k, pyvc.smax2, builtins.max)


def _mm(a, k, f2, real):
    if len(a) == 1 and isinstance(a[0], SArr):
        return symnp.minmax(a[0], 1 if real is builtins.max else -1)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(x) for x in xs) and not k:
        if any(isinstance(x, SBV) for x in xs):
            r = xs[0]
            for y in xs[1:]:
                c = (r <= y) if real is builtins.min else (r >= y)
                r = ite(c, r, y)
            return r
        r = xs[0]
        for y in xs[1:]:
            r = f2(r, y)
        return r
    return real(*a, **k)


def b_sum(x, start=0):
    if isinstance(x, GList):
        for g, v in x.items:
            start = start + (v if g is True else ite(g, v, 0))
        return start
    if isinstance(x, SArr):
        return symnp.sum_(x)
    if isinstance(x, SSeq):
        return symnp.Sum(lambda i: num(x.elem(i)), 0, x.slen())
    s = start
    for y in x:
        s = s + y
    return s


def b_any(x):
    if isinstance(x, GList):
        return Or(*[And(g, sbool(v)) for g, v in x.items]) if x.items else False
    if isinstance(x, SArr):
        return symnp.any_(x)
    if hasattr(x, "slen") and is_sym(x.slen()):
        return pyvc.exists(lambda i: And(i >= 0, i < x.slen(), sbool(x.elem(i))))
    r = False
    for y in x:
        if isinstance(y, SBool):
            r = y if r is False else Or(r, y)
        elif y:
            return True
    return r


def b_all(x):
    if isinstance(x, GList):
        return And(*[Implies(g, sbool(v)) for g, v in x.items]) if x.items else True
    if isinstance(x, SArr):
        return symnp.all_(x)
    if hasattr(x, "slen") and is_sym(x.slen()):
        return pyvc.forall(lambda i: pyvc.Implies(And(i >= 0, i < x.slen()), sbool(x.elem(i))))
    r = True
    for y in x:
        if isinstance(y, SBool):
            r = y if r is True else And(r, y)
        elif not y:
            return False
    return r


def b_enumerate(x, start=0):
    if hasattr(x, "slen") and is_sym(x.slen()):
        return SSeq(x.slen(), lambda k: (k + start, x.elem(k)))
    return builtins.enumerate(x, start)


def b_zip(*xs, **k):
    if any(hasattr(x, "slen") and is_sym(x.slen()) for x in xs):
        n = None
        for x in xs:
            m = b_len(x)
            n = m if n is None else pyvc.smin2(n, m)

        def g(x):
            return x.elem if hasattr(x, "elem") else (lambda i: as_arr(list(x)).at(i))
        gs = [g(x) for x in xs]
        return SSeq(n, lambda i: tuple(h(i) for h in gs))
    return builtins.zip(*xs, **k)


def b_reversed(x):
    if hasattr(x, "slen") and is_sym(x.slen()):
        return SSeq(x.slen(), lambda k: x.elem(num(x.slen()) - 1 - k))
    return builtins.reversed(x)


def b_map(f, *xs):
    if len(xs) == 1 and hasattr(xs[0], "slen") and is_sym(xs[0].slen()):
        return SSeq(xs[0].slen(), lambda k: f(xs[0].elem(k)))
    return builtins.map(f, *xs)


def b_list(*a):
    if a and hasattr(a[0], "_list_"):
        return a[0]._list_()
    if a and isinstance(a[0], SFilt):
        return a[0]
    if a and isinstance(a[0], pyvc.GSeq):
        return a[0].copy()
    if a and hasattr(a[0], "slen") and is_sym(a[0].slen()):
        x = a[0]
        return SSeq(x.slen(), x.elem)
    return builtins.list(*a)


def b_tuple(*a):
    if a and hasattr(a[0], "slen") and is_sym(a[0].slen()):
        return b_list(*a)
    return builtins.tuple(*a)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for q in ts:
        if isinstance(q, tuple):
            flat += list(q)
        else:
            flat.append(q)
    out = []
    for q in flat:
        q = getattr(q, "_builtin_", None) or getattr(q, "_np_", None) or q
        out.append(q)
    if isinstance(x, pyvc.Ghost):
        return x._isinstance_(out)
    if isinstance(x, SArr):
        return any(q is rnp.ndarray for q in out)
    if isinstance(x, SNum):
        if x.is_int:
            return any(q in (int, rnp.integer, rnp.int64) for q in out)
        return any(q in (float, rnp.floating, rnp.float64) for q in out)
    if isinstance(x, SBool):
        return any(q in (bool, rnp.bool_) for q in out)
    if isinstance(x, SBV):
        return any(q in (rnp.uint32, rnp.integer, rnp.unsignedinteger) for q in out)
    if isinstance(x, SName):
        return any(q in (str, bytes) for q in out)
    if isinstance(x, SSeq):
        return any(q is list for q in out)
    out = [q for q in out if isinstance(q, type)]
    return builtins.isinstance(x, tuple(out))


def b_str(*a, **k):
    if a and isinstance(a[0], SName):
        return a[0]
    if a and is_sym(a[0]):
        return "<sym>"
    return builtins.str(*a, **k)


def b_bool(*a):
    if a and isinstance(a[0], SBool):
        return a[0]
    if a and isinstance(a[0], (SNum, SBV)):
        return sbool(a[0])
    return builtins.bool(*a)


def b_round(x, n=None):
    if is_sym(x):
        return rint(x)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_sorted(x, **k):
    if isinstance(x, SArr) and not k:
        return symnp.sort_(x)
    if isinstance(x, SFilt) or hasattr(x, "as_filter"):
        return x.as_filter().sorted(**k)
    return builtins.sorted(x, **k)


def b_print(*a, **k):
    pass


def b_hasattr(o, n):
    return builtins.hasattr(o, n)


class MathShim(types.ModuleType):
    def __getattr__(self, k):
        real = getattr(math, k)
        if not callable(real):
            return real

        def f(*a):
            if any(is_sym(x) for x in a):
                if k == "sqrt":
                    return pyvc.sqrt(*a)
                if k in ("fabs",):
                    return abs(a[0])
                if k == "floor":
                    return SNum(pyvc.z3.ToInt(sfloat(a[0]).e))
                if k == "ceil":
                    return SNum(-pyvc.z3.ToInt((-sfloat(a[0])).e))
                if k in ("isnan", "isinf"):
                    return False
                return pyvc.ufun(k, *a)
            return real(*a)
        return f


class Stub(types.ModuleType):
    """inert stand-in for a third-party package"""

    def __init__(self, name):
        super().__init__(name)
        self.__dict__["_cache"] = {}

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        c = self.__dict__["_cache"]
        if k not in c:
            c[k] = type(k, (StubObj,), {"_stub_name": self.__name__ + "." + k})
        return c[k]


class StubMeta(type):
    def __getattr__(cls, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return type(k, (StubObj,), {"_stub_name": cls.__name__ + "." + k})


class StubObj(metaclass=StubMeta):
    _stub_name = "?"

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        # used as a decorator: identity
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return StubObj()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return StubObj()


def _mk_six():
    m = types.ModuleType("six")

    def add_metaclass(meta):
        def deco(cls):
            d = {k: v for k, v in cls.__dict__.items() if k not in ("__dict__", "__weakref__")}
            return meta(cls.__name__, cls.__bases__, d)
        return deco
    m.add_metaclass = add_metaclass
    m.with_metaclass = lambda meta, *bases: meta("tmp", bases or (object,), {})
    m.string_types = (str,)
    m.text_type = str
    m.binary_type = bytes
    m.integer_types = (int,)
    m.PY3, m.PY2 = True, False
    return m


SIX = _mk_six()
FUNCTOOLS = types.ModuleType("functools")
FUNCTOOLS.__dict__.update(functools.__dict__)
FUNCTOOLS.reduce = g_reduce


class NullLog:
    """log output is not part of any contract; formatting it would force symbolic values into text"""
    __name__ = "logging"

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k.isupper():
            return 0
        if k[0].isupper():
            return NullLog
        return lambda *a, **kw: NullLog()


class Loader:
    def __init__(self, repo=None, real_imports=(), overrides=None, srcmap=None):
        self.repo = repo or REPO
        self.mods = {}
        self.real = {"collections", "functools", "operator", "itertools", "os", "os.path", "re", "glob", "warnings", "logging", "time", "copy",
                     "inspect", "traceback", "abc", "typing", "dataclasses", "numbers", "json", "datetime", "pickle", "sys", "struct",
                     "contextlib", "shutil", "random", "string", "tempfile", "io", "types", "enum"} | set(real_imports)
        self.overrides = {"logging": NullLog(), **(overrides or {})}
        self.srcmap = srcmap or {}
        self.builtins = dict(builtins.__dict__)
        self.builtins.update({
            "len": b_len, "range": b_range, "min": b_min, "max": b_max, "sum": b_sum, "any": b_any, "all": b_all,
            "enumerate": b_enumerate, "zip": b_zip, "reversed": b_reversed, "map": b_map, "isinstance": b_isinstance,
            "round": b_round, "sorted": b_sorted, "print": b_print,
            "int": _B(int, lambda *a: sint(a[0]) if a and (is_sym(a[0]) or hasattr(a[0], "_as_int_")) else builtins.int(*a)),
            "float": _B(float, lambda *a: sfloat(a[0]) if a and (is_sym(a[0]) or hasattr(a[0], "_as_float_")) else builtins.float(*a)),
            "str": _B(str, b_str), "list": _B(list, b_list), "tuple": _B(tuple, b_tuple), "bool": _B(bool, b_bool),
            "__import__": self._import, "__pyvc_cast__": rt_cast, "__pyvc_cint__": rt_cint, "__pyvc_libc__": LibcLimits,
            "__pyvc_loop__": rt_loop, "__pyvc_locals__": rt_locals, "__pyvc_comp__": rt_comp, "__pyvc_fstr__": rt_fstr,
            "__pyvc_in__": rt_in, "__pyvc_join__": rt_join, "__pyvc_star__": rt_star, "set": _B(set, b_set), "filter": b_filter,
        })

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[:len(pkg) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        if full in self.overrides:
            return self.overrides[full]
        if full == "numpy" or full.startswith("numpy."):
            return symnp.np
        if full == "six":
            return SIX
        if full == "functools":
            return FUNCTOOLS
        if full == "math":
            return MathShim("math")
        if full.split(".")[0] == "mass":
            m = self.load(full)
            if not fromlist and not level:
                return self.load("mass") if "." in full else m
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f) and isinstance(m, Pkg):
                    sub = full + "." + f
                    if f == "__version__":
                        setattr(m, f, "0.0.0")
                    elif self._path(sub):
                        setattr(m, f, self.load(sub))
                    else:
                        setattr(m, f, getattr(Stub(full), f))
            return m
        if full in self.real or full.split(".")[0] in self.real:
            return __import__(name, None, None, fromlist, 0)
        return Stub(full)

    def _path(self, full):
        p = os.path.join(self.repo, *full.split("."))
        for q in (p + ".py", p + ".pyx"):
            if os.path.exists(q):
                return q
        if os.path.isdir(p):
            return p
        return None

    def load(self, full):
        """load mass.x.y ; packages are namespaces whose attributes are loaded on demand"""
        if full in self.mods:
            return self.mods[full]
        if full in self.overrides:
            return self.overrides[full]
        p = self._path(full)
        if p is None:
            m = Stub(full)
            self.mods[full] = m
            return m
        if os.path.isdir(p):
            m = Pkg(full, self)
            self.mods[full] = m
            return m
        with open(p) as f:
            src = f.read()
        dropped = []
        if p.endswith(".pyx"):
            src, dropped = pyx_to_py(src)
        m = self.exec_source(full, src, p)
        m.__dropped__ = dropped
        return m

    def exec_source(self, full, src, path):
        tree = ast.parse(src, path)
        if path.endswith(".pyx"):
            tree = NarrowVars().visit(tree)
        tree = RW2().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        m = types.ModuleType(full)
        m.__dict__.update({"__builtins__": self.builtins, "__name__": full, "__file__": path,
                           "__package__": full.rpartition(".")[0]})
        self.mods[full] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(full, None)
            raise
        return m


class Pkg(types.ModuleType):
    def __init__(self, full, loader):
        super().__init__(full)
        self.__dict__["_loader"] = loader

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        full = self.__name__ + "." + k
        if self._loader._path(full):
            m = self._loader.load(full)
        else:
            m = find_in_package(self._loader, self.__name__, k)
        setattr(self, k, m)
        return m


def find_in_package(loader, pkg, k):
    """a name re-exported by a package's __init__: locate the defining submodule textually"""
    d = os.path.join(loader.repo, *pkg.split("."))
    pat = re.compile(rf"^(?:def|class|cdef class|cpdef .*)\s+{re.escape(k)}\b|^{re.escape(k)}\s*=", re.M)
    for fn in sorted(os.listdir(d)):
        if fn.endswith((".py", ".pyx")) and fn != "__init__.py":
            with open(os.path.join(d, fn)) as f:
                if pat.search(f.read()):
                    return getattr(loader.load(pkg + "." + fn.rsplit(".", 1)[0]), k)
    return getattr(Stub(pkg), k)


# ---------------------------------------------------------------- pyx extraction
CT = r"(?:unsigned\s+|signed\s+|const\s+)*(?:long\s+long|long\s+double|char|short|int|long|float|double|bint|Py_ssize_t|size_t|object|str|list|tuple|dict|void|" \
     r"np\.\w+|DTYPE\w*|[a-z]+\d*_t|\w+_t)"


def pyx_to_py(src):
    """strip Cython declarations.  Returns (python source, list of dropped lines)"""
    dropped = []
    src = casts(src.replace("\t", "    "), dropped)
    # join continued parentheses for def/cdef headers and cdef statements: work on logical lines
    lines = src.split("\n")
    out = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = ln[:len(ln) - len(ln.lstrip())]
        if re.match(r"(cdef|cpdef|def|cdef\s+extern)\b", st) and not st.startswith("cdef extern"):
            # gather logical line
            buf = ln
            while buf.count("(") + buf.count("[") > buf.count(")") + buf.count("]") or buf.rstrip().endswith("\\"):
                i += 1
                buf = buf.rstrip().rstrip("\\") + " " + lines[i].strip()
            st = buf.strip()
            # comments inside gathered lines
            st = re.sub(r"\s#.*$", "", st) if st.count('"') == 0 and st.count("'") == 0 else st
            if re.match(r"(cdef|cpdef|def)\b.*\)\s*(nogil|noexcept|except\s*[^:]*)*\s*:\s*$", st) and "(" in st and not re.match(r"cdef\s+class", st) \
                    and "=" not in st.split("(")[0]:
                m = re.match(r"(?:cdef|cpdef|def)\s+(?:inline\s+)?(.*?)(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|except\s*[^:]*)*\s*:\s*$", st)
                args = split_top(m.group(3))
                new = []
                for a in args:
                    a = a.strip()
                    if not a:
                        continue
                    default = None
                    a = re.sub(r"\[[^\]]*\](?=\s*\w+\s*(=|$|not|or))", "", a)
                    if "=" in a:
                        a, default = a.split("=", 1)
                    a = a.strip()
                    a = re.sub(r"\s+(not|or)\s+None$", "", a)
                    nm = re.findall(r"(\*{0,2}\w+)\s*$", a)[0]
                    if nm != a:
                        dropped.append(f"argument type: {a}")
                    new.append(nm + ("=" + default.strip() if default is not None else ""))
                out.append(f"{ind}def {m.group(2)}({', '.join(new)}):")
                i += 1
                continue
            if st.startswith("cdef class"):
                out.append(ind + st.replace("cdef class", "class"))
                i += 1
                continue
            if st in ("cdef:",):
                dropped.append(st)
                base = len(ind)
                i += 1
                body = []
                while i < len(lines) and (not lines[i].strip() or len(lines[i]) - len(lines[i].lstrip()) > base):
                    if lines[i].strip():
                        body.append(lines[i].strip())
                    i += 1
                n = 0
                buf = ""
                for b in body:
                    b = re.sub(r"\s*#.*$", "", b)
                    buf = (buf + " " + b).strip()
                    if buf.count("(") + buf.count("[") > buf.count(")") + buf.count("]"):
                        continue
                    if buf:
                        n += emit_decl(buf, ind, out, dropped)
                    buf = ""
                if not n:
                    out.append(ind + "pass")
                continue
            if st.startswith("cdef ") or st.startswith("cpdef "):
                emit_decl(re.sub(r"^(cdef|cpdef)\s+", "", st), ind, out, dropped) or out.append(ind + "pass")
                i += 1
                continue
        if re.match(r"cimport\b|from\s+\S+\s+cimport\b", st):
            dropped.append(st)
            m = re.match(r"from\s+libc\.math\s+cimport\s+(.*)", st)
            if m:
                nms = [x.strip() for x in m.group(1).strip("() ").split(",")]
                nms = [x for x in nms if x and hasattr(math, x)]
                out.append(ind + ("from math import " + ", ".join(nms) if nms else "pass"))
            elif re.match(r"cimport\s+libc\.limits\s*$", st):
                out.append(ind + "libc = __pyvc_libc__")
            else:
                out.append(ind + "pass")
            i += 1
            continue
        if st.startswith("ctypedef"):
            dropped.append(st)
            out.append(ind + "pass")
            i += 1
            continue
        if st.startswith("cdef extern"):
            dropped.append(st)
            base = len(ind)
            i += 1
            while i < len(lines) and (not lines[i].strip() or len(lines[i]) - len(lines[i].lstrip()) > base):
                dropped.append(lines[i].strip())
                i += 1
            continue
        if st.startswith("@cython"):
            dropped.append(st)
            i += 1
            continue
        if re.match(r"with\s+nogil\s*:", st):
            dropped.append(st)
            out.append(ind + "if True:")
            i += 1
            continue
        out.append(ln)
        i += 1
    return "\n".join(out), dropped


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


NARROW = {"char": (8, True), "short": (16, True), "short int": (16, True), "np.int8_t": (8, True), "np.int16_t": (16, True),
          "int8_t": (8, True), "int16_t": (16, True), "np.uint8_t": (8, False), "np.uint16_t": (16, False), "uint8_t": (8, False), "uint16_t": (16, False)}
WIDE = {"int": (32, True), "long": (64, True), "long long": (64, True), "Py_ssize_t": (64, True), "size_t": (64, False), "np.int32_t": (32, True),
        "np.int64_t": (64, True), "np.uint32_t": (32, False), "np.uint64_t": (64, False), "int32_t": (32, True), "int64_t": (64, True),
        "uint32_t": (32, False), "uint64_t": (64, False)}


def int_type(t, table):
    """(bits, signed) of a C integer type name in the table"""
    w = t.replace("const ", "").split()
    sg = None
    if w and w[0] in ("unsigned", "signed"):
        sg = w[0] == "signed"
        w = w[1:] or ["int"]
    r = table.get(" ".join(w))
    return None if r is None else r if sg is None else (r[0], sg)


def casts(src, dropped):
    """<integer type>operand -> __pyvc_cast__(operand, bits, signed); casts to other types are dropped (real arithmetic)"""
    pat = re.compile(rf"<\s*({CT})\s*(\**)\s*>[ \t]*")
    while True:
        hit = None
        for m in pat.finditer(src):
            hit = m           # the last one: operands never hold another cast
        if hit is None:
            return src
        ty = None if hit.group(2) else int_type(re.sub(r"\s+", " ", hit.group(1)), {**NARROW, **WIDE})
        i = j = hit.end()
        if ty is not None:
            if j < len(src) and src[j] != "(":
                j = re.compile(r"[\w.]*").match(src, j).end()
            while j < len(src) and src[j] in "([":
                d = 0
                while j < len(src):
                    d += (src[j] in "([{") - (src[j] in ")]}")
                    j += 1
                    if d == 0:
                        break
                m2 = re.compile(r"\.\w+").match(src, j)
                j = m2.end() if m2 else j
        if ty is None or j == i:
            dropped.append("cast " + hit.group(0))
            src = src[:hit.start()] + src[hit.end():]
        else:
            src = src[:hit.start()] + f"__pyvc_cast__({src[i:j]}, {ty[0]}, {ty[1]})" + src[j:]


class NarrowVars(ast.NodeTransformer):
    """locals declared with a C integer type of 16 bits or less: every assignment wraps as in C"""

    def __init__(self):
        self.vars = {}

    def visit_FunctionDef(self, n):
        old, self.vars = self.vars, {}
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "__pyvc_narrow__":
                self.vars[x.args[0].value] = (x.args[1].value, x.args[2].value)
        self.generic_visit(n)
        self.vars = old
        return n

    def _wrap(self, targets):
        out = []
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in self.vars:
                    b, s = self.vars[x.id]
                    out.append(ast.parse(f"{x.id} = __pyvc_cint__({x.id}, {b}, {s})").body[0])
        return out

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "__pyvc_narrow__":
            return ast.Pass()
        return self.generic_visit(n)

    def visit_Assign(self, n):
        return [self.generic_visit(n)] + self._wrap(n.targets)

    def visit_AugAssign(self, n):
        return [self.generic_visit(n)] + self._wrap([n.target])

    def visit_AnnAssign(self, n):
        return [self.generic_visit(n)] + self._wrap([n.target])

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self._wrap([n.target]) + n.body
        return n


def rt_cint(v, bits, signed):
    """a value stored in a C integer variable"""
    if isinstance(v, (bool, SBool)) or (isinstance(v, SNum) and not v.is_int):
        return v
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if not is_sym(v):
        return (int(v) - lo) % (1 << bits) + lo
    if not isinstance(v, SNum):
        return v
    c = pyvc.ctx()
    if c.provable(pyvc.And(v >= lo, v <= hi)):
        return v
    return (v - lo) % (1 << bits) + lo


def rt_cast(v, bits, signed):
    """an explicit cast to a C integer type: towards zero from a real number (some value when out of range), modulo from an integer"""
    if isinstance(v, SArr) or not isinstance(v, (SNum, int, float)) or isinstance(v, bool):
        return v
    if isinstance(v, float) or (isinstance(v, SNum) and not v.is_int):
        v = num(v)
        fl = SNum(z3.ToInt(v.e))
        r = pyvc.ite(v >= 0, fl, 0 - SNum(z3.ToInt((0 - v).e)))
        if bits < 32:
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            c = pyvc.ctx()
            ok = pyvc.And(r >= lo, r <= hi)
            if not c.provable(ok):
                w = c.int("cast", lo=lo, hi=hi)          # undefined in C: some value of the type
                c.assume(pyvc.Implies(ok, w == r))
                return w
        return r
    return rt_cint(v, bits, signed) if bits < 32 else v


class LibcLimits:
    class limits:
        SHRT_MIN, SHRT_MAX, USHRT_MAX = -32768, 32767, 65535
        INT_MIN, INT_MAX, UINT_MAX = -2**31, 2**31 - 1, 2**32 - 1
        LONG_MIN, LONG_MAX, ULONG_MAX = -2**63, 2**63 - 1, 2**64 - 1
        LLONG_MIN, LLONG_MAX, ULLONG_MAX = -2**63, 2**63 - 1, 2**64 - 1


def emit_decl(decl, ind, out, dropped):
    """'<type> a = 1, b' -> assignments; returns number of statements emitted"""
    dropped.append("declaration: " + decl)
    # remove the type prefix
    d = decl
    m = re.match(rf"((?:np\.)?ndarray\s*\[[^\]]*\]|{CT}\s*\[[^\]]*\]|{CT}|\w+(?:\.\w+)*)\s*[\*&]*\s+(.*)$", d)
    rest = m.group(2) if m else d
    n = 0
    narrow = int_type(m.group(1), NARROW) if m and "[" not in m.group(1) and "*" not in d[:d.find(rest)] else None
    for item in split_top(rest):
        if narrow and re.fullmatch(r"\w+", item.split("=")[0].strip()):
            out.append(f"{ind}__pyvc_narrow__({item.split('=')[0].strip()!r}, {narrow[0]}, {narrow[1]})")
            n += 1
        if "=" in item:
            nm, v = item.split("=", 1)
            out.append(f"{ind}{nm.strip().lstrip('*')} = {v.strip()}")
            n += 1
    return n
