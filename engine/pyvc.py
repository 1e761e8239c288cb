"""PyVC: contract verification of real Python source by symbolic execution with loop invariants.

The source of the function under contract is read from /repo on every run (see loader.py), executed by
CPython over the proxy values below, forked at every symbolic branch, cut at every loop that carries an
invariant, and each named obligation of a harness is discharged with z3 (cvc5 as second back end) under the
path condition.  Python ints are mathematical integers, floats are mathematical reals; uint32 masks are
32-bit vectors.
"""
import sys, time, os, math, subprocess, tempfile, builtins, traceback
from fractions import Fraction
import z3
import numpy as rnp


class PathDone(BaseException):
    """this path needs no further exploration"""


class Restart(BaseException):
    """re-run the harness with a larger havoc set"""


class Unsupported(Exception):
    """construct outside the verifier's reach"""


class SpecMismatch(Exception):
    """a loop annotation does not fit the code any more"""


VCTX = None          # the active context


def ctx():
    if VCTX is None:
        raise Unsupported("symbolic operation outside a harness")
    return VCTX


# ------------------------------------------------------------------ values
class Sym:
    __slots__ = ()
    __array_priority__ = 1000
    __array_ufunc__ = None


def is_sym(x):
    return isinstance(x, Sym)


def _frac(x):
    """the rational a float constant stands for: p/q with q <= 1000 when the float is exactly that quotient rounded (1.0/3
    means one third: machine arithmetic is treated as mathematical), otherwise its decimal reading"""
    if isinstance(x, Fraction):
        return x
    f = Fraction(float(x)).limit_denominator(1000)
    if float(f) == float(x):
        return f
    return Fraction(repr(float(x)))


def ex(x):
    """python/proxy scalar -> z3 expr"""
    if isinstance(x, (SNum, SBool, SBV, SName)):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, rnp.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, rnp.floating, Fraction)):
        if isinstance(x, (float, rnp.floating)) and not math.isfinite(x):
            raise Unsupported("non-finite float in symbolic arithmetic")
        f = _frac(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if hasattr(x, "_as_scalar_"):
        return ex(x._as_scalar_())
    raise Unsupported(f"cannot convert {type(x).__name__} to a solver term")


def wrap(e):
    """z3 expr -> proxy (or concrete python value if it is a literal)"""
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return e.as_long()
        return SNum(e)
    if z3.is_real(e):
        return SNum(e)
    if z3.is_bv(e):
        return SBV(e)
    if e.sort() == STR:
        return SName(e)
    raise Unsupported(f"sort {e.sort()}")


def num(x):
    """as SNum (int or real)"""
    if isinstance(x, SNum):
        return x
    if isinstance(x, (SBool, bool, rnp.bool_)):
        return SNum(z3.If(ex(x), z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SBV):
        return SNum(z3.BV2Int(x.e, is_signed=False))
    e = ex(x)
    if z3.is_bool(e):
        e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return SNum(e)


def sbool(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, z3.BoolRef):
        return SBool(x)
    if isinstance(x, SNum):
        return SBool(x.e != 0)
    if isinstance(x, SBV):
        return SBool(x.e != 0)
    return SBool(z3.BoolVal(bool(x)))


class SBool(Sym):
    __slots__ = ("e",)
    dtype = rnp.dtype(bool)
    shape = ()
    ndim = 0

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if not isinstance(o, (SBool, bool, rnp.bool_)):
            return NotImplemented
        return SBool(z3.And(self.e, ex(o)))
    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (SBool, bool, rnp.bool_)):
            return NotImplemented
        return SBool(z3.Or(self.e, ex(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.e, ex(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, rnp.bool_)):
            return SBool(self.e == ex(o))
        if isinstance(o, (int, float, SNum)):
            return num(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return 77

    def __index__(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return 1 if bool(self) else 0

    def __add__(self, o): return num(self) + o
    def __radd__(self, o): return o + num(self)
    def __mul__(self, o): return num(self) * o
    __rmul__ = __mul__
    def __sub__(self, o): return num(self) - o
    def __rsub__(self, o): return o - num(self)

    def all(self): return self
    def any(self): return self

    def __repr__(self):
        return f"SBool({self.e})"


def _is_real(e):
    return z3.is_real(e)


def _coerce(a, b):
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bv(a):
        a = z3.BV2Int(a)
    if z3.is_bv(b):
        b = z3.BV2Int(b)
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


_SC = (int, float, Fraction, rnp.integer, rnp.floating, rnp.bool_)


class SNum(Sym):
    """symbolic mathematical integer or real"""
    __slots__ = ("e",)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return z3.is_int(self.e)

    @property
    def dtype(self):
        return rnp.dtype(rnp.int64) if self.is_int else rnp.dtype(rnp.float64)

    def _bin(self, o, f, rev=False):
        if not isinstance(o, (SNum, SBool) + _SC):
            return NotImplemented
        if isinstance(o, (float, rnp.floating)) and not math.isfinite(o):
            return NotImplemented
        a, b = _coerce(self.e, ex(o))
        if rev:
            a, b = b, a
        return SNum(f(a, b))

    def __add__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _div(a, b):
        if z3.is_int(a):
            a = z3.ToReal(a)
        if z3.is_int(b):
            b = z3.ToReal(b)
        ctx().note_assumption("division by zero does not occur where a quotient is used (x/0 is an arbitrary value)")
        return a / b

    def __truediv__(self, o): return self._bin(o, self._div)
    def __rtruediv__(self, o): return self._bin(o, self._div, True)

    @staticmethod
    def _fdiv(a, b):
        if z3.is_int(a) and z3.is_int(b):
            if z3.is_int_value(b):
                if b.as_long() > 0:
                    return a / b
                return -(a / (-b)) if False else z3.If(a % (-b) == 0, -(a / (-b)), -(a / (-b)) - 1)
            if not ctx().decide(b > 0):
                if ctx().decide(b == 0):
                    raise ZeroDivisionError("integer division or modulo by zero")
                na, nb = -a, -b
                return na / nb
            return a / b
        q = a / b
        return z3.ToInt(q) + z3.RealVal(0) if False else z3.ToReal(z3.ToInt(q))

    def __floordiv__(self, o): return self._bin(o, self._fdiv)
    def __rfloordiv__(self, o): return self._bin(o, self._fdiv, True)

    @staticmethod
    def _mod(a, b):
        if z3.is_int(a) and z3.is_int(b):
            if z3.is_int_value(b) and b.as_long() > 0:
                return a % b
            if not ctx().decide(b > 0):
                if ctx().decide(b == 0):
                    raise ZeroDivisionError("integer division or modulo by zero")
                return a - SNum._fdiv(a, b) * b
            return a % b
        return a - b * z3.ToReal(z3.ToInt(a / b))

    def __mod__(self, o): return self._bin(o, self._mod)
    def __rmod__(self, o): return self._bin(o, self._mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self): return SNum(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SNum(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, (int, rnp.integer)) and 0 <= o <= 8:
            r = None
            for _ in range(int(o)):
                r = self.e if r is None else r * self.e
            return SNum(r) if r is not None else SNum(z3.IntVal(1) if self.is_int else z3.RealVal(1))
        if isinstance(o, (float, rnp.floating)) and float(o).is_integer() and 0 <= o <= 8:
            return num(SNum(z3.ToReal(self.e)) if self.is_int else self) ** int(o)
        if isinstance(o, (float,)) and o == 0.5:
            return sqrt(self)
        if isinstance(o, (int, float)) and o < 0:
            return 1 / (self ** (-o))
        return ufun("pow", self, o)

    def __rpow__(self, o):
        if isinstance(o, int) and o == 2 and self.is_int:
            return ufun("pow2", self)
        return ufun("pow", o, self)

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return NotImplemented

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return NotImplemented

    def __rlshift__(self, o):
        # c << k  : enumerate k
        return o << ctx().concretize(self)

    def _cmp(self, o, f):
        if isinstance(o, (float, rnp.floating)) and not math.isfinite(o):
            return f(0.0, o)      # every real compares like 0 with inf; nan gives False
        if not isinstance(o, (SNum, SBool) + _SC):
            return NotImplemented
        a, b = _coerce(self.e, ex(o))
        return SBool(f(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not is_sym(o) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not is_sym(o) else r

    def __hash__(self):
        return 77

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __index__(self):
        if self.is_int:
            return ctx().concretize(self)
        raise TypeError("real used as index")

    def __float__(self):
        raise Unsupported("native float() of a symbolic value")

    def __int__(self):
        return ctx().concretize(sint(self))

    def __round__(self, n=None):
        return rint(self)

    def __trunc__(self):
        return sint(self)

    def astype(self, t):
        from symnp import cast_scalar
        return cast_scalar(self, t)

    def item(self): return self
    def copy(self): return self
    def sum(self): return self
    def __format__(self, spec): return f"<{self.e}>"
    def __repr__(self): return f"S({self.e})"


def sint(x):
    """python int(): truncation toward zero"""
    if hasattr(x, "_as_int_"):
        return x._as_int_()
    if not is_sym(x):
        return int(x)
    if isinstance(x, (SBool, SBV)):
        return num(x)
    if not isinstance(x, SNum):
        if hasattr(x, "_as_scalar_"):
            return sint(x._as_scalar_())
        raise Unsupported("int() of " + type(x).__name__)
    if x.is_int:
        return x
    e = x.e
    # int(ToReal(i)) = i
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
        return SNum(e.arg(0))
    return SNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def sfloat(x):
    if hasattr(x, "_as_float_"):
        return x._as_float_()
    if not is_sym(x):
        return float(x)
    if isinstance(x, SNum):
        return SNum(z3.ToReal(x.e)) if x.is_int else x
    if isinstance(x, (SBool, SBV)):
        return sfloat(num(x))
    if hasattr(x, "_as_scalar_"):
        return sfloat(x._as_scalar_())
    raise Unsupported("float() of " + type(x).__name__)


def rint(x):
    """round to nearest integer, ties to even (value stays of its kind: int result)"""
    if not is_sym(x):
        return round(x)
    if x.is_int:
        return x
    f = z3.ToInt(x.e)
    d = x.e - z3.ToReal(f)
    h = z3.RealVal("1/2")
    return SNum(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def _stored(x):
    """a literal NaN merged with numbers: an unspecified number (a comparison of it is not what IEEE says)"""
    if isinstance(x, (float, rnp.floating)) and x != x:
        ctx().note_assumption("NaN merged with other numbers is an unspecified number")
        return z3.Real(ctx().fname("nan"))
    return x


def ite(c, a, b):
    """scalar if-then-else without forking"""
    if isinstance(c, (bool, rnp.bool_)):
        return a if c else b
    ce = sbool(c).e
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if isinstance(a, STuple) or isinstance(b, STuple):
        return STuple([ite(c, x, y) for x, y in zip(a, b)])
    if a is b:
        return a
    if isinstance(a, SBV) or isinstance(b, SBV):
        w = a if isinstance(a, SBV) else b
        return SBV(z3.If(ce, w._c(a), w._c(b)))
    if isinstance(a, (SName, str, bytes)) and isinstance(b, (SName, str, bytes)):
        if not is_sym(a) and not is_sym(b) and a == b:
            return a
        return SName(z3.If(ce, SName.code(a), SName.code(b)))
    if hasattr(a, "_ite_"):
        return a._ite_(c, b)
    xa, xb = ex(_stored(a)), ex(_stored(b))
    if z3.is_bool(xa) and z3.is_bool(xb):
        return SBool(z3.If(ce, xa, xb))
    xa, xb = _coerce(xa, xb)
    return SNum(z3.If(ce, xa, xb))


class STuple(tuple):
    pass


class SBV(Sym):
    """machine unsigned integer"""
    __slots__ = ("e",)
    shape = ()
    ndim = 0

    def __init__(self, e):
        self.e = e

    @property
    def w(self):
        return self.e.size()

    @property
    def dtype(self):
        return rnp.dtype(f"u{self.w // 8}")

    def _c(self, o):
        if isinstance(o, SBV):
            if o.w == self.w:
                return o.e
            if o.w < self.w:
                return z3.ZeroExt(self.w - o.w, o.e)
            return z3.Extract(self.w - 1, 0, o.e)
        if isinstance(o, (bool, int, rnp.integer, rnp.bool_)):
            return z3.BitVecVal(int(o) % (1 << self.w), self.w)
        if isinstance(o, SBool):
            return z3.If(o.e, z3.BitVecVal(1, self.w), z3.BitVecVal(0, self.w))
        if isinstance(o, SNum) and o.is_int:
            return z3.Int2BV(o.e, self.w)
        if hasattr(o, "_as_scalar_"):
            return self._c(o._as_scalar_())
        raise Unsupported(f"bit-vector operation with {type(o).__name__}")

    def _b(self, o, f, rev=False):
        if not isinstance(o, (SBV, bool, int, rnp.integer, rnp.bool_, SBool, SNum)):
            return NotImplemented
        s = self
        if isinstance(o, SBV) and o.w > s.w:
            s = SBV(z3.ZeroExt(o.w - s.w, s.e))
        a, b = s.e, s._c(o)
        if rev:
            a, b = b, a
        return SBV(f(a, b))

    def __and__(self, o): return self._b(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._b(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._b(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __invert__(self): return SBV(~self.e)
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __lshift__(self, o): return self._b(o, lambda a, b: a << b)
    def __rlshift__(self, o): return self._b(o, lambda a, b: a << b, True)
    def __rshift__(self, o): return self._b(o, z3.LShR)
    def __rrshift__(self, o): return self._b(o, z3.LShR, True)

    def _cmp(self, o, f):
        if not isinstance(o, (SBV, bool, int, rnp.integer, rnp.bool_, SBool)):
            return NotImplemented
        if isinstance(o, int) and not 0 <= o < (1 << self.w):
            return NotImplemented
        s = self
        if isinstance(o, SBV) and o.w > s.w:
            s = SBV(z3.ZeroExt(o.w - s.w, s.e))
        return SBool(f(s.e, s._c(o)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o): return self._cmp(o, z3.ULT)
    def __le__(self, o): return self._cmp(o, z3.ULE)
    def __gt__(self, o): return self._cmp(o, z3.UGT)
    def __ge__(self, o): return self._cmp(o, z3.UGE)

    def __hash__(self):
        return 77

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __index__(self):
        return ctx().concretize(self)

    def __int__(self):
        return ctx().concretize(self)

    def astype(self, t):
        from symnp import cast_scalar
        return cast_scalar(self, t)

    def __repr__(self):
        return f"BV({self.e})"


STR = z3.DeclareSort("Str")
STRID = z3.Function("strid", STR, z3.IntSort())
STRORD = z3.Function("strord", STR, z3.IntSort())


class SName(Sym):
    """a string/bytes of unknown content, of which only equality (and emptiness) matters.
    A concrete string is a constant of the uninterpreted sort with its own identifier."""
    __slots__ = ("e",)
    _codes = {"": 0}

    def __init__(self, e):
        self.e = e

    @staticmethod
    def code(x):
        if isinstance(x, SName):
            return x.e
        if isinstance(x, bytes):
            x = x.decode()
        if isinstance(x, str):
            c = SName._codes
            if x not in c:
                c[x] = len(c)
            t = z3.Const("str:" + x, STR)
            if VCTX is not None:
                VCTX.axiom(STRID(t) == c[x])
            return t
        raise Unsupported("name of " + type(x).__name__)

    def encode(self, *a): return self
    def decode(self, *a): return self
    def lower(self): return self
    def __str__(self): return self          # rewritten str() only
    def __eq__(self, o):
        if isinstance(o, (SName, str, bytes)):
            return SBool(self.e == SName.code(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __bool__(self): return ctx().decide(self.e != SName.code(""))
    def __hash__(self): return 78
    def __lt__(self, o): return SBool(STRORD(self.e) < STRORD(SName.code(o)))
    def __gt__(self, o): return SBool(STRORD(self.e) > STRORD(SName.code(o)))
    def __le__(self, o): return SBool(STRORD(self.e) <= STRORD(SName.code(o)))
    def __ge__(self, o): return SBool(STRORD(self.e) >= STRORD(SName.code(o)))
    def __add__(self, o): return self
    def __radd__(self, o): return self
    def __format__(self, spec): return f"<{self.e}>"
    def __repr__(self): return f"Name({self.e})"


# ------------------------------------------------------------------ maths symbols
_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


def ufun(name, *args):
    """uninterpreted real function of scalar arguments"""
    es = []
    for a in args:
        e = ex(a)
        if z3.is_bool(e):
            e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(e):
            e = z3.ToReal(e)
        es.append(e)
    R = z3.RealSort()
    return SNum(uf("u_" + name, *([R] * len(es) + [R]))(*es))


def sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    x = sfloat(x)
    r = ufun("sqrt", x)
    c = ctx()
    c.axiom(z3.Implies(x.e >= 0, z3.And(r.e >= 0, r.e * r.e == x.e)))
    return r


def smax2(a, b):
    return ite(num(a) >= num(b), a, b)


def smin2(a, b):
    return ite(num(a) <= num(b), a, b)


def And(*a):
    return SBool(z3.And([sbool(x).e for x in a])) if a else SBool(z3.BoolVal(True))


def Or(*a):
    return SBool(z3.Or([sbool(x).e for x in a])) if a else SBool(z3.BoolVal(False))


def Not(a):
    return SBool(z3.Not(sbool(a).e))


def Implies(a, b):
    return SBool(z3.Implies(sbool(a).e, sbool(b).e))


def Iff(a, b):
    return SBool(sbool(a).e == sbool(b).e)


_qn = [0]


def forall(f, n=1, pats=None, sort=None):
    """forall integers: f(j, ...) -> SBool"""
    c = ctx()
    _qn[0] += 1
    vs = [z3.Const(f"q{c.depth}_{i}", sort or z3.IntSort()) for i in range(n)]
    c.depth += 1
    c.noforks += 1
    try:
        body = f(*[wrap(v) for v in vs])
        p = []
        if pats is not None:
            pr = pats(*[wrap(v) for v in vs])
            p = [z3.MultiPattern(*[ex(t) for t in x]) if isinstance(x, tuple) else ex(x) for x in
                 (pr if isinstance(pr, list) else [pr])]
    finally:
        c.noforks -= 1
        c.depth -= 1
    p = [q for q in p if not _has_ite(q)]
    return SBool(z3.ForAll(vs, sbool(body).e, patterns=p) if p else z3.ForAll(vs, sbool(body).e))


def generalised(b):
    """the condition with every quotient and every sum symbol replaced by a number of its own: implies the condition"""
    e = z3.simplify(sbool(b).e, som=True)
    new, out = {}, {}

    def go(x):
        k = x.get_id()
        if k in out:
            return out[k]
        if z3.is_quantifier(x) or z3.is_var(x):
            return x
        if (z3.is_div(x) and z3.is_real(x)) or (z3.is_app(x) and x.decl().name().startswith("Sum") and z3.is_arith(x)):
            key = z3.simplify(x, som=True).sexpr()
            if key not in new:
                new[key] = z3.Const(f"!g{len(new)}", x.sort())
            r = new[key]
        elif x.num_args() and z3.is_app(x):
            ch = [go(y) for y in x.children()]
            r = z3.simplify(z3.Sum(ch)) if z3.is_add(x) else z3.Product(ch) if z3.is_mul(x) else x.decl()(*ch)
        else:
            r = x
        out[k] = r
        return r
    return SBool(z3.simplify(go(e), som=True))


def with_same_quotients(b):
    """the condition with quotients replaced by numbers of their own, the same number for those whose numerators and
    denominators are provably equal: implies the condition"""
    c = ctx()
    e = sbool(b).e
    new, out = [], {}

    def go(x):
        k = x.get_id()
        if k in out:
            return out[k]
        if z3.is_quantifier(x) or z3.is_var(x):
            r = x
        elif z3.is_div(x) and z3.is_real(x) and not z3.is_rational_value(x.arg(1)):
            n, d = x.children()
            for (n2, d2, v) in new:
                if c.provable(SBool(z3.And(n == n2, d == d2))):
                    r = v
                    break
            else:
                r = z3.Const(f"!q{len(new)}", x.sort())
                new.append((n, d, r))
        elif z3.is_app(x) and x.num_args():
            ch = [go(y) for y in x.children()]
            r = z3.Sum(ch) if z3.is_add(x) else z3.Product(ch) if z3.is_mul(x) else z3.And(ch) if z3.is_and(x) else z3.Or(ch) if z3.is_or(x) else x.decl()(*ch)
        else:
            r = x
        out[k] = r
        return r
    return SBool(go(e))


_NLMUL = z3.Function("nl*", z3.RealSort(), z3.RealSort(), z3.RealSort())
_NLDIV = z3.Function("nl/", z3.RealSort(), z3.RealSort(), z3.RealSort())


def _nonlinear(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_mul(x) and z3.is_real(x) and sum(not z3.is_rational_value(y) for y in x.children()) > 1:
            return True
        if z3.is_div(x) and not z3.is_rational_value(x.arg(1)):
            return True
        todo.extend(x.children())
    return False


def _abstract_nl(e, memo):
    """the formula with products of two non-constant reals and divisions by a non-constant
    replaced by uninterpreted functions: every model of the original is a model of the
    result, so unsat carries over"""
    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(x):
            body = go(x.body())
            if x.body().eq(body):
                r = x
            else:
                vs = [z3.Const("qv!%d!%s" % (k, x.var_name(i)), x.var_sort(i)) for i in range(x.num_vars())]
                b2 = z3.substitute_vars(body, *reversed(vs))
                pats = []
                for i in range(x.num_patterns()):
                    p = x.pattern(i)
                    pats.append(z3.MultiPattern(*[z3.substitute_vars(go(t), *reversed(vs)) for t in p.children()]))
                r = (z3.ForAll if x.is_forall() else z3.Exists)(vs, b2, patterns=pats)
        elif z3.is_app(x) and x.num_args():
            ch = [go(y) for y in x.children()]
            if z3.is_mul(x) and z3.is_real(x):
                const = [y for y in ch if z3.is_rational_value(y)]
                non = sorted((y for y in ch if not z3.is_rational_value(y)), key=lambda y: y.get_id())
                if len(non) > 1:
                    r = non[0]
                    for y in non[1:]:
                        r = _NLMUL(r, y)
                    for y in const:
                        r = y * r
                else:
                    r = x.decl()(*ch)
            elif z3.is_div(x) and not z3.is_rational_value(ch[1]):
                r = _NLDIV(ch[0], ch[1])
            elif x.decl().kind() == z3.Z3_OP_POWER:
                r = _NLMUL(ch[0], ch[1])
                if z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 \
                        and 2 <= ch[1].as_fraction() <= 4:
                    r = ch[0]
                    for _ in range(int(ch[1].as_fraction()) - 1):
                        r = _NLMUL(r, ch[0])
            else:
                r = x.decl()(*ch)
        else:
            r = x
        memo[k] = (x, r)
        return r
    return go(e)


def _has_quant(e):
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        todo.extend(t.children())
    return False


def _has_ite(e):
    todo = [e]
    while todo:
        t = todo.pop()
        if not z3.is_pattern(t) and (z3.is_app_of(t, z3.Z3_OP_ITE) or z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or z3.is_eq(t)):
            return True
        todo.extend(t.children() if not z3.is_pattern(t) else [t.arg(i) for i in range(t.num_args())])
    return False


def exists(f, n=1):
    c = ctx()
    vs = [z3.Int(f"q{c.depth}_{i}") for i in range(n)]
    c.depth += 1
    c.noforks += 1
    try:
        body = f(*[SNum(v) for v in vs])
    finally:
        c.noforks -= 1
        c.depth -= 1
    return SBool(z3.Exists(vs, sbool(body).e))


# ------------------------------------------------------------------ sums
class SumTable:
    """Sigma_{0<=t<m} core(t), canonicalised: constants and t-free factors pulled out, addends split, t-free
    subterms abstracted into parameters."""

    def __init__(self):
        self.sym = {}

    def sum(self, f, lo, hi):
        """Sigma_{lo<=i<hi} f(i)"""
        c = ctx()
        lo_, hi_ = num(lo), num(hi)
        t = z3.Int("!t%d" % c.sumdepth)
        c.sumdepth += 1
        c.noforks += 1
        try:
            b = f(SNum(t) + lo_ if not (isinstance(lo, int) and lo == 0) else SNum(t))
        finally:
            c.noforks -= 1
            c.sumdepth -= 1
        b = num(b)
        m = z3.simplify(hi_.e - lo_.e)
        be = z3.simplify(b.e, som=True, arith_lhs=False, mul_to_power=False, flat=True)
        isint = z3.is_int(be)
        addends = be.children() if z3.is_app_of(be, z3.Z3_OP_ADD) else [be]
        tot = None
        for a in addends:
            factors = self._factors(a)
            outer, core = [], []
            for x in factors:
                (core if self._has(x, t) else outer).append(x)
            if core:
                if len(core) > 1:
                    core.sort(key=lambda x: (self._shape(x, t), x.sexpr()))
                term = self._symbol(core, t, m, isint)
            else:
                mm = z3.If(m > 0, m, z3.IntVal(0))
                term = mm if isint else z3.ToReal(mm)
            for x in outer:
                term = x * term
            tot = term if tot is None else tot + term
        return SNum(tot)

    @staticmethod
    def _factors(a):
        if z3.is_app_of(a, z3.Z3_OP_MUL):
            r = []
            for x in a.children():
                r += SumTable._factors(x)
            return r
        if z3.is_app_of(a, z3.Z3_OP_UMINUS):
            return [z3.RealVal(-1) if z3.is_real(a) else z3.IntVal(-1)] + SumTable._factors(a.arg(0))
        if z3.is_app_of(a, z3.Z3_OP_TO_REAL) and z3.is_app_of(a.arg(0), z3.Z3_OP_MUL):
            return [z3.ToReal(x) for x in SumTable._factors(a.arg(0))]
        if z3.is_app_of(a, z3.Z3_OP_DIV) and not z3.is_int(a):
            return SumTable._factors(a.arg(0)) + [z3.RealVal(1) / a.arg(1)]
        return [a]

    @staticmethod
    def _has(x, t, memo=None):
        memo = {} if memo is None else memo
        k = x.get_id()
        if k in memo:
            return memo[k]
        if x.eq(t):
            r = True
        elif z3.is_quantifier(x):
            r = SumTable._has(x.body(), t, memo)
        else:
            r = any(SumTable._has(c, t, memo) for c in x.children())
        memo[k] = r
        return r

    def _shape(self, x, t):
        """the factor with its t-free subterms left out: an order of factors that does not depend on how large those are"""
        def go(y):
            if z3.is_var(y):
                return "v"
            if not self._has(y, t):
                return str(y) if z3.is_int_value(y) or z3.is_rational_value(y) else "p"
            if y.eq(t):
                return "t"
            return "(" + y.decl().name() + " " + " ".join(go(ch) for ch in y.children()) + ")"
        return go(x)

    def _symbol(self, core, t, m, isint):
        prod = core[0]
        for x in core[1:]:
            prod = prod * x
        params = []

        def abstract(x):
            if z3.is_var(x):
                return x
            if not self._has(x, t):
                if z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x):
                    return x
                for i, p in enumerate(params):
                    if p.eq(x):
                        return z3.Const(f"!p{i}", x.sort())
                params.append(x)
                return z3.Const(f"!p{len(params)-1}", x.sort())
            if x.eq(t) or x.num_args() == 0:
                return x
            if z3.is_quantifier(x):
                raise Unsupported("quantifier inside a sum")
            if z3.is_app_of(x, z3.Z3_OP_ADD):        # one parameter for the addends without t; the others in an order of their own
                free = [y for y in x.children() if not self._has(y, t)]
                rest = sorted([y for y in x.children() if self._has(y, t)], key=lambda y: (self._shape(y, t), y.sexpr()))
                ch = [abstract(y) for y in rest]
                if all(z3.is_int_value(y) or z3.is_rational_value(y) for y in free):
                    ch = free + ch
                else:
                    ch = [abstract(z3.simplify(z3.Sum(free)))] + ch
                return z3.Sum(ch)
            return x.decl()(*[abstract(ch) for ch in x.children()])
        ab = abstract(prod)
        key = (ab.sexpr(), tuple(str(p.sort()) for p in params), isint)
        c = ctx()
        if key not in self.sym:
            sorts = [p.sort() for p in params] + [z3.IntSort(), z3.IntSort() if isint else z3.RealSort()]
            self.sym[key] = (z3.Function(f"Sum{len(self.sym)}", *sorts), ab, t)
        fn, ab, t0 = self.sym[key]
        term = fn(*params, m)
        c.note_sum(fn, ab, t0, params, m, term)
        return term


SUMS = SumTable()


def Sum(f, lo, hi):
    if not is_sym(lo) and not is_sym(hi) and hi - lo <= 16:
        s = 0
        for i in range(lo, hi):
            s = f(i) + s
        return s
    return SUMS.sum(f, lo, hi)


# ------------------------------------------------------------------ context
class Oblig:
    __slots__ = ("name", "paths", "ok", "failed", "unknown", "time", "detail", "backend", "trivial")

    def __init__(self, name):
        self.name = name
        self.paths = self.ok = self.failed = self.unknown = self.trivial = 0
        self.time = 0.0
        self.detail = None
        self.backend = set()


class Ctx:
    def __init__(self, name, specs=None, qtimeout=8.0, unroll=4, max_paths=4000, deadline=None):
        self.name = name
        self.specs = specs or {}       # (funcname, ordinal) -> LoopSpec
        self.qtimeout = qtimeout
        self.unroll = unroll
        self.max_paths = max_paths
        self.deadline = deadline
        self.obl = {}
        self.covers = {}
        self.assumptions = set()
        self.bounded = set()
        self.havoc_extra = {}          # loop key -> set of store keys
        self.kind_up = {}              # (loop key, var) -> 'r'
        self.cache = {}
        self.keep = []
        self.sum_memo = {}
        self.parts = {}                # a proof split over harnesses: {"fn": name, loop number: "body" | "exit"}
        self.npaths = 0
        self.solver_time = 0.0
        self.nqueries = 0
        self.contracts_used = set()
        self.errors = []
        self.functions = set()
        self.loops_used = set()
        self.feas_timeout = 700

    # ---- path state
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.pc = []
        self.ax = []
        self.axids = set()
        self.counters = {}
        self.loops = []
        self.noforks = 0
        self.depth = 0
        self.sumdepth = 0
        self.sums = []
        self.sum_out = None
        self.args2 = []                # instances of the axioms of 2-d argmax/argmin
        self.storectr = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_timeout)
        self.solver.set("mbqi", False)      # feasibility only: "unknown" counts as feasible
        self.path_bounded = False
        self.sel_memo = {}
        self.trace = []

    def fname(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return base if n == 0 else f"{base}!{n}"

    def int(self, name="k", lo=None, hi=None):
        v = SNum(z3.Int(self.fname(name)))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def real(self, name="x"):
        return SNum(z3.Real(self.fname(name)))

    def bool(self, name="b"):
        return SBool(z3.Bool(self.fname(name)))

    def bv(self, name="m", w=32):
        return SBV(z3.BitVec(self.fname(name), w))

    def name_(self, name="nm", nonempty=False):
        v = SName(z3.Const(self.fname(name), STR))
        if nonempty:
            self.assume(v != "")
        return v

    def note_assumption(self, s):
        self.assumptions.add(s)

    def axiom(self, e):
        e = e.e if isinstance(e, SBool) else e
        k = e.get_id()
        if k in self.axids:
            return
        self.axids.add(k)
        self.keep.append(e)
        self.ax.append(e)
        self.solver.add(e)

    def assume(self, b):
        e = sbool(b).e
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)

    def note_sum(self, fn, ab, t, params, m, term):
        for r in self.sums:
            if r[5].eq(term):
                return
        self.sums.append((fn, ab, t, params, m, term))

    def sum_axioms(self):
        if self.sum_out is not None and self.sum_out[0] == len(self.sums):
            return self.sum_out[1]
        out = []
        memo = self.sum_memo
        for (fn, ab, t, params, m, term) in self.sums:
            out.append(z3.Implies(m <= 0, term == 0))
        for i, (fn, ab, t, params, m, term) in enumerate(self.sums):
            for j, (fn2, ab2, t2, params2, m2, term2) in enumerate(self.sums):
                if i != j and fn.eq(fn2):
                    key = (term.get_id(), term2.get_id())
                    hit = memo.get(key)
                    if hit is None:
                        subst = [(z3.Const(f"!p{k}", p.sort()), p) for k, p in enumerate(params)]
                        c = z3.substitute(ab, *(subst + [(t, m)]))
                        same = z3.And([p == q for p, q in zip(params, params2)]) if params else z3.BoolVal(True)
                        hit = memo[key] = (z3.Implies(z3.And(same, m2 == m + 1, m >= 0), term2 == term + c), term, term2)   # keeps the ids alive
                    out.append(hit[0])
        self.sum_out = (len(self.sums), out)
        return out

    # ---- deciding
    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.noforks:
            raise Unsupported(f"branch on a bound variable: {str(e)[:200]}")
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the harness exhausted")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.pc.append(e if v else z3.Not(e))
            self.solver.add(self.pc[-1])
            return v
        t0 = time.time()
        rt = self.solver.check(e)
        rf = self.solver.check(z3.Not(e)) if rt != z3.unsat else z3.sat
        self.solver_time += time.time() - t0
        self.nqueries += 2
        if rt == z3.unsat and rf == z3.unsat:
            raise PathDone()
        if rt == z3.unsat:
            v = False
        elif rf == z3.unsat:
            v = True
        else:
            v = True
            self.work.append(self.prefix[:self.pos] + [False])
        self.prefix.append(v)
        self.pos += 1
        self.pc.append(e if v else z3.Not(e))
        self.solver.add(self.pc[-1])
        return v

    def choose(self, label=""):
        """nondeterministic binary choice (both explored)"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            return v
        self.work.append(self.prefix[:self.pos] + [False])
        self.prefix.append(True)
        self.pos += 1
        return True

    def concretize(self, x, limit=70):
        e = z3.simplify(x.e)
        if z3.is_int_value(e) or z3.is_bv_value(e):
            return e.as_long()
        for _ in range(limit):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                # stored as ('eq', value) or ('ne', value)
                tag, val = v
                c = e == val
                self.pc.append(c if tag == 'eq' else z3.Not(c))
                self.solver.add(self.pc[-1])
                if tag == 'eq':
                    return val
                continue
            if self.noforks:
                raise Unsupported("concretisation of a bound variable")
            sv = self.solver
            r = sv.check()
            if r == z3.unsat:
                raise PathDone()
            if r != z3.sat:
                sv = z3.Solver()
                sv.set("timeout", 2000)
                sv.add([x for x in self.pc + self.ax if not _has_quant(x)])
                if sv.check() != z3.sat:
                    raise Unsupported("cannot enumerate values of an index")
            mv = sv.model().eval(e, model_completion=True).as_long()
            if self.solver.check(e != mv) != z3.unsat:
                self.work.append(self.prefix[:self.pos] + [('ne', mv)])
            self.prefix.append(('eq', mv))
            self.pos += 1
            self.pc.append(e == mv)
            self.solver.add(self.pc[-1])
            return mv
        raise Unsupported("index has too many possible values")

    def provable(self, b, timeout=2.0):
        e = sbool(b).e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._solve(z3.Not(e), timeout, second=False)[0] == "unsat"

    def _solve(self, negated, timeout, second=True):
        base = self.pc + self.ax + self.sum_axioms()
        key = (tuple(x.get_id() for x in base), negated.get_id())
        if key in self.cache and (self.cache[key][0] != "unknown" or self.cache[key][4] >= timeout):
            return self.cache[key][:4]
        self.keep.append(negated)
        self.keep.extend(base)
        t0 = time.time()
        s = z3.Solver()
        for x in base:
            s.add(x)
        s.add(negated)
        mixed = second and timeout >= 4 and _nonlinear(negated) and any(_has_quant(x) for x in base)
        # nonlinear goal under quantified facts: a short attempt, then the abstraction of
        # products to uninterpreted functions (sound for unsat), then the full attempt
        s.set("timeout", int((1.5 if mixed else timeout) * 1000))
        r = s.check()
        back = "z3"
        if mixed and r == z3.unknown:
            memo = self.__dict__.setdefault("_absmemo", {})
            s3 = z3.Solver()
            s3.set("timeout", 4000)
            for x in base:
                s3.add(_abstract_nl(x, memo))
            s3.add(_abstract_nl(negated, memo))
            if s3.check() == z3.unsat:
                r, back = z3.unsat, "z3(products uninterpreted)"
            else:
                s = z3.Solver()
                for x in base:
                    s.add(x)
                s.add(negated)
                s.set("timeout", int(timeout * 1000))
                r = s.check()
        res = "unsat" if r == z3.unsat else ("sat" if r == z3.sat else "unknown")
        model = None
        if res == "sat":
            try:
                model = str(s.model())[:1500]
            except Exception:
                model = "?"
        if res == "unknown" and second:
            # simpler portfolio: nonlinear tactic, then cvc5
            for mk, nm in ((lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver(), "z3(solve-eqs)"),):
                s2 = mk()
                s2.set("timeout", int(timeout * 1000))
                for x in base:
                    s2.add(x)
                s2.add(negated)
                try:
                    r = s2.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.unsat:
                    res, back = "unsat", nm
                    break
            if res == "unknown":
                r = cvc5_check(s.to_smt2(), timeout)
                if r == "unsat":
                    res, back = "unsat", "cvc5"
        dt = time.time() - t0
        self.solver_time += dt
        self.nqueries += 1
        out = (res, model, back, dt)
        self.cache[key] = out + (timeout,)
        return out

    def ensure(self, name, b, timeout=None):
        """obligation"""
        o = self.obl.setdefault(name, Oblig(name))
        o.paths += 1
        e = z3.simplify(sbool(b).e)
        if z3.is_true(e):
            o.ok += 1
            o.trivial += 1
            o.backend.add("simplifier")
            return True
        res, model, back, dt = self._solve(z3.Not(e), timeout or self.qtimeout)
        o.time += dt
        if res == "unsat":
            o.ok += 1
            o.backend.add(back)
            return True
        if res == "sat":
            o.failed += 1
        else:
            o.unknown += 1
        if o.detail is None:
            o.detail = {"result": res, "goal": str(e)[:4000], "model": model,
                        "path": [str(x)[:300] for x in self.pc[-25:]]}
        return False

    def cover(self, name):
        if self.covers.get(name):
            return
        s = z3.Solver()
        s.set("timeout", 3000)
        for x in self.pc + self.ax + self.sum_axioms():
            s.add(x)
        r = s.check()
        self.covers[name] = self.covers.get(name) or ("sat" if r == z3.sat else
                                                      ("unknown" if r == z3.unknown else False))

    def unreachable(self, name):
        """obligation: this point cannot be reached"""
        return self.ensure(name, SBool(z3.BoolVal(False)))

    # ---- running
    def run(self, fn):
        global VCTX
        restarts = 0
        while True:
            self.work = [[]]
            self.obl, self.covers = {}, {}
            self.npaths = 0
            again = False
            while self.work:
                prefix = self.work.pop()
                self.reset(prefix)
                VCTX = self
                self.npaths += 1
                if self.npaths > self.max_paths:
                    self.errors.append("path limit reached")
                    break
                try:
                    fn(self)
                    self.note_done()
                except PathDone:
                    pass
                except Restart:
                    again = True
                    break
                except (Unsupported, SpecMismatch) as exn:
                    # only an issue if the path is feasible
                    if self.solver.check() != z3.unsat and len(self.errors) < 8:
                        self.errors.append(f"{type(exn).__name__}: {exn} @ {short_tb(exn)}")
                        if len(self.errors) > 5:
                            break
                except RecursionError as exn:
                    self.errors.append(f"RecursionError @ {short_tb(exn)}")
                except Exception as exn:
                    self.raised(exn)
                finally:
                    VCTX = None
            if not again:
                break
            restarts += 1
            self.errors = []
            if restarts > 60:
                self.errors.append("too many havoc restarts")
                break
        return self

    def note_done(self):
        pass

    def raised(self, exn):
        inner = traceback.extract_tb(exn.__traceback__)[-1].filename
        own = os.path.abspath(inner).startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        if isinstance(exn, (AttributeError, NameError, ImportError)) or (own and isinstance(exn, TypeError)):
            # the harness and the source no longer fit together (renamed or re-shaped helper)
            if self.solver.check() != z3.unsat:
                self.errors.append(f"harness does not fit: {type(exn).__name__}: {exn} @ {short_tb(exn)}")
            return
        o = self.obl.setdefault("no-unexpected-exception", Oblig("no-unexpected-exception"))
        o.paths += 1
        res, model, back, dt = self._solve(z3.BoolVal(True), self.qtimeout)
        if res == "unsat":
            o.ok += 1
            return
        if res == "sat":
            o.failed += 1
        else:
            o.unknown += 1
        if o.detail is None:
            o.detail = {"result": res, "goal": f"{type(exn).__name__}: {exn} @ {short_tb(exn)}", "model": model,
                        "path": [str(x)[:300] for x in self.pc[-25:]]}


def short_tb(exn):
    tb = traceback.extract_tb(exn.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-6:]))


def cvc5_check(smt2, timeout):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt2)
            nm = f.name
        r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(timeout*1000)}", nm],
                           capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        return out if out in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        try:
            os.unlink(nm)
        except Exception:
            pass


# ------------------------------------------------------------------ loops
class LoopSpec:
    """inv(env) -> list of (label, condition); env has: attributes = locals, ._k (completed iterations), ._n,
    ._entry (locals at loop entry).  types: {local: 'int'|'real'|'bool'|callable(ctx, env)}.
    modifies: callables on env giving SArr whose stores are havoced (others found automatically)."""

    def __init__(self, inv, types=None, dead=(), havoc=None, exit_lemma=None, body_lemma=None, handles=(), stores=()):
        self.inv = inv
        self.stores = stores            # locals whose array elements the body writes (others are found by restarting)
        self.handles = set(handles)
        self.types = types or {}
        self.dead = set(dead)
        self.havoc = havoc
        self.exit_lemma = exit_lemma
        self.body_lemma = body_lemma


class Env:
    def __init__(self, d, **kw):
        self.__dict__["_d"] = d
        self.__dict__.update(kw)

    def __getattr__(self, k):
        try:
            return self._d[k]
        except KeyError:
            raise SpecMismatch(f"loop annotation refers to local '{k}' which does not exist")

    def get(self, k, default=None):
        return self._d.get(k, default)


class Poison(Sym):
    def __init__(self, nm):
        object.__setattr__(self, "nm", nm)

    def _bad(self, *a, **k):
        raise Unsupported(f"value of '{self.nm}' after a loop is not described by its annotation")
    __getattr__ = _bad
    __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __setitem__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __iter__ = __call__ = __truediv__ = __eq__ = __len__ = _bad
    __hash__ = None


class SRange:
    """symbolic range(lo, hi, step)"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        if is_sym(step):
            if not ctx().decide(num(step).e > 0):
                raise Unsupported("range with a step that may be <= 0")
            self.cnt = ite(num(hi) > num(lo), (num(hi) - num(lo) + num(step) - 1) // num(step), 0)
        else:
            st = abs(step)
            d = (num(hi) - num(lo)) if step > 0 else (num(lo) - num(hi))
            self.cnt = ite(d > 0, (d + (st - 1)) // st if st != 1 else d, 0)

    def slen(self):
        return self.cnt

    def elem(self, k):
        return self.lo + k * self.step

    def __iter__(self):
        return unroll_iter(self)

    def __contains__(self, x):
        raise Unsupported("in range")


class SSeq:
    """symbolic-length sequence with an element function"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def slen(self):
        return self.n

    def elem(self, k):
        return self.f(k)

    def __iter__(self):
        return unroll_iter(self)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.stop is None and k.step is None and isinstance(k.start, int) and k.start >= 0:
                d = num(self.n) - k.start
                return SSeq(ite(d < 0, 0, d), lambda i: self.f(num(i) + k.start))
            raise Unsupported("slice of a sequence")
        return self.f(k)


class Ghost:
    """base of specification-only stand-ins; _isinstance_(types) answers isinstance"""

    def _isinstance_(self, ts):
        return any(isinstance(q, type) and isinstance(self, q) for q in ts)


class GSeq(SSeq):
    """a growing list: symbolic length, element function; append keeps the earlier elements"""

    @staticmethod
    def of(x):
        """view of a python list / sequence as (length, element function)"""
        if isinstance(x, SSeq):
            return x
        if isinstance(x, (list, tuple)):
            xs = list(x)

            def f(k):
                if not xs:
                    return None
                r = xs[-1]
                for i in range(len(xs) - 2, -1, -1):
                    r = ite(num(k) == i, xs[i], r)
                return r
            return GSeq(len(xs), f)
        raise Unsupported(f"not a list: {type(x).__name__}")

    @staticmethod
    def fresh(c, nm, mk=None):
        """unknown list of unknown length; mk(index term) -> element (default: uninterpreted ints)"""
        n = c.int("len_" + nm, lo=0)
        if mk is None:
            fn = z3.Function(c.fname("el_" + nm), z3.IntSort(), z3.IntSort())
            mk = lambda k: SNum(fn(num(k).e))
        return GSeq(n, mk)

    def copy(self):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        return r

    def append(self, x):
        n, f = self.n, self.f

        def g(k):
            if isinstance(x, (Sym, int, float)):
                return ite(num(k) == n, x, f(k))
            return x if (num(k) == n) else f(k)
        self.f, self.n = g, n + 1


def unroll_iter(seq):
    """bounded fallback: unroll up to ctx.unroll elements"""
    c = ctx()
    n = seq.slen()
    k = 0
    while True:
        if not (num(k) < num(n)):
            return
        if k >= c.unroll:
            c.bounded.add(f"sequence unrolled to {c.unroll}")
            raise PathDone()
        yield seq.elem(k)
        k += 1


def _snapshot(d):
    """shallow fingerprint of the mutable python objects reachable from the locals"""
    out = {}

    def one(path, v, depth):
        if isinstance(v, list):
            out[path] = ("list", tuple(id(x) for x in v))
            if depth < 2:
                for i, x in enumerate(v[:20]):
                    one(path + (i,), x, depth + 1)
        elif isinstance(v, dict):
            out[path] = ("dict", tuple((id(k), id(x)) for k, x in v.items()))
            if depth < 2:
                for k, x in list(v.items())[:60]:
                    one(path + (str(k),), x, depth + 1)
        elif isinstance(v, (set,)):
            out[path] = ("set", tuple(sorted(id(x) for x in v)))
        elif hasattr(v, "__dict__") and not isinstance(v, (type, Sym)) and type(v).__module__ not in ("builtins", "symnp", "loader", "pyvc") \
                and not callable(v) and depth < 3:
            one(path + ("__dict__",), v.__dict__, depth + 1)
    for k, v in d.items():
        if not k.startswith("__"):
            one((k,), v, 0)
    return out


class LoopRT:
    """run-time controller the rewritten loops talk to"""

    def __init__(self, fid, k, it, frame, assigned, is_while, mut=()):
        self.mut = set(mut)
        c = ctx() if VCTX is not None else None
        self.key = (fid, k)
        self.it = it
        self.is_while = is_while
        self.assigned = assigned
        self.exited = False
        self.mode = "concrete"
        self.c = c
        self.spec = c.specs.get(self.key) if c else None
        if c is not None and self.spec is None and isinstance(fid, str):
            self.spec = c.specs.get((fid.split(".")[-1], k))
        if c is None:
            return
        if is_while:
            if self.spec is not None:
                self.mode = "sym"
        elif hasattr(it, "slen") and is_sym(it.slen()):
            if self.spec is not None:
                self.mode = "sym"
            else:
                self.mode = "unroll"
        if self.mode == "sym":
            c.loops_used.add(self.key)
            self.entry = dict(frame.f_locals)
            self.n = it.slen() if not is_while else None
            self.start_store = c.storectr
            for nm in self.spec.stores:
                st = getattr(self.entry.get(nm), "store", None)
                if st is not None:
                    c.havoc_extra.setdefault(self.key, set()).add(st.key)
            self.snap = _snapshot(self.entry)
            self.label = f"{fid.split('.')[-1]}#loop{k}"
            env = Env(self.entry, _k=0, _n=self.n, _entry=Env(self.entry), _it=it)
            for nm, b in self._inv(env):
                c.ensure(f"{self.label}/init:{nm}", b)

    def _inv(self, env):
        out = []
        for k, x in enumerate(self.spec.inv(env)):
            if isinstance(x, tuple):
                out.append(x)
            else:
                out.append((f"inv{k}", x))
        return out

    def __iter__(self):
        if self.mode == "concrete":
            if self.is_while:
                return self._forever()
            return iter(self.it)
        if self.mode == "unroll":
            return iter(self.it)
        return self._sym()

    def _forever(self):
        k = 0
        while True:
            yield k
            k += 1
            if VCTX is not None and k > 200:
                ctx().bounded.add(f"while loop {self.key} unrolled")
                raise PathDone()

    # the two symbolic modes
    def _sym(self):
        c = self.c
        self.active = True
        if self.is_while:
            self.phase = "body"
            c.loops.append(self)
            self.i = c.int("it_" + str(self.key[1]), lo=0)
            yield self.i
            self._preserve(sys._getframe(1))
            return
        part = c.parts.get(self.key[1] if (self.key[0] or "").split(".")[-1] == c.parts.get("fn") else None)
        if (part == "body") if part is not None else c.choose(self.label):
            self.phase = "body"
            c.loops.append(self)
            self.i = c.int("it_" + str(self.key[1]), lo=0)
            c.assume(num(self.i) < num(self.n))
            yield self.it.elem(self.i)
            self._preserve(sys._getframe(1))
            return
        self.phase = "exit"
        self.i = self.n
        return

    def havoc(self, frame_locals):
        """called first thing in the body and in the else branch; returns new values of the assigned locals"""
        c = self.c
        if self.mode != "sym":
            return None
        # heap
        self._havoc_stores()
        d = dict(frame_locals)
        out = []
        for nm in self.assigned:
            out.append(self._havoc_local(nm, d))
        newd = dict(d)
        newd.update(dict(zip(self.assigned, out)))
        i = self.i if not self.is_while else self.i
        env = Env(newd, _k=i, _n=self.n, _entry=Env(self.entry), _it=self.it)
        if self.spec.havoc is not None:
            self.spec.havoc(c, env)
        if not self.is_while:
            if self.phase == "exit":
                c.assume(num(self.n) >= 0)
        for nm, b in self._inv(env):
            c.assume(b)
        lem = self.spec.body_lemma if self.phase == "body" else self.spec.exit_lemma
        if lem is not None:
            for b in lem(env):
                c.assume(b)
        return out

    def _havoc_local(self, nm, d):
        c = self.c
        t = self.spec.types.get(nm)
        up = c.kind_up.get((self.key, nm))
        if callable(t):
            return t(c, Env(d, _k=self.i, _n=self.n, _entry=Env(self.entry), _it=self.it))
        if nm in self.mut:
            return d.get(nm)
        if nm in self.spec.dead:
            return Poison(nm)
        cur = self.entry.get(nm, Poison)
        if up:
            t = up
        if t is None:
            if isinstance(cur, SName):
                return SName(z3.Const(c.fname("h_" + nm), STR))
            if isinstance(cur, (bool, rnp.bool_, SBool)):
                t = "bool"
            elif isinstance(cur, (int, rnp.integer)):
                t = "int"
            elif isinstance(cur, (float, rnp.floating)):
                t = "real"
            elif isinstance(cur, SNum):
                t = "int" if cur.is_int else "real"
            elif isinstance(cur, SBV):
                return c.bv("h_" + nm, cur.w)
            else:
                return Poison(nm)
        return {"int": c.int, "real": c.real, "bool": c.bool, "bv32": c.bv}[t]("h_" + nm)

    def _havoc_stores(self):
        c = self.c
        from symnp import ALL_STORES
        for key in sorted(c.havoc_extra.get(self.key, ())):
            st = ALL_STORES(c).get(key)
            if st is not None:
                st.havoc(c)

    def _preserve(self, frame):
        c = self.c
        d = dict(frame.f_locals)
        # kinds
        for nm in self.assigned:
            v, cur = d.get(nm), self.entry.get(nm)
            if nm in self.mut:
                continue
            if (self.key, nm) not in c.kind_up and nm not in self.spec.types and nm not in self.spec.dead:
                isr = (isinstance(v, SNum) and not v.is_int) or isinstance(v, float)
                wasint = isinstance(cur, (int, rnp.integer)) and not isinstance(cur, bool) or (isinstance(cur, SNum) and cur.is_int)
                if isr and wasint:
                    c.kind_up[(self.key, nm)] = "real"
                    raise Restart()
        after = _snapshot({k: v for k, v in self.entry.items()})
        for k, v in self.snap.items():
            if k[0] not in self.spec.handles and after.get(k) != v:
                raise SpecMismatch(f"loop {self.key} mutates '{k}', which its annotation does not describe")
        env = Env(d, _k=self.i + 1, _n=self.n, _entry=Env(self.entry), _it=self.it)
        for nm, b in self._inv(env):
            c.ensure(f"{self.label}/preserved:{nm}", b)
        raise PathDone()

    def leave(self):
        """after the loop (break or exit): stop tracking stores"""
        if self.mode == "sym" and self in self.c.loops:
            self.c.loops.remove(self)


def store_written(store):
    """called by symnp before every store mutation"""
    c = VCTX
    if c is None:
        return
    for L in c.loops:
        if L.phase == "body" and store.key <= L.start_store and store.key not in c.havoc_extra.get(L.key, ()):
            c.havoc_extra.setdefault(L.key, set()).add(store.key)
            raise Restart()
