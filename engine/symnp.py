"""Symbolic numpy: arrays of (possibly) symbolic length with an element function, views, masked selection and
reductions.  Anything whose arguments are all concrete is delegated to real numpy."""
import builtins, itertools, math, operator
import numpy as rnp
import z3
import pyvc
from pyvc import (Ghost, STR, Sym, SNum, SBool, SBV, SName, STuple, is_sym, ex, num, sbool, wrap, ite, ctx, Unsupported,
                  sint, sfloat, rint, Sum, ufun, SSeq, store_written, And, Or, Not, Implies, forall)


# ---------------------------------------------------------------- dtypes
class DT:
    """element type tag"""

    def __init__(self, kind, np_=None, fields=None, names=None):
        self.kind = kind          # 'i','f','b','bv','s','obj','rec'
        self.np = np_
        self.fields = fields      # name -> DT (rec)
        self.names = names

    @property
    def itemsize(self):
        if self.np is not None:
            return self.np.itemsize
        raise Unsupported("itemsize")

    def __eq__(self, o):
        if isinstance(o, DT):
            return self.np == o.np and self.kind == o.kind
        try:
            return self.np is not None and self.np == rnp.dtype(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.np)

    def __repr__(self):
        return f"DT({self.kind},{self.np})"

    @property
    def type(self):
        return self.np.type if self.np is not None else None


def dt_of(d):
    if isinstance(d, DT):
        return d
    if d is builtins.int or getattr(d, "_builtin_", None) is builtins.int:
        d = rnp.int64
    if getattr(d, "_builtin_", None) is builtins.float:
        d = rnp.float64
    if getattr(d, "_np_", None) is not None:
        d = d._np_
    d = rnp.dtype(d)
    if d.names:
        return DT("rec", d, {n: dt_of(d[n]) for n in d.names}, d.names)
    if d.kind == "b":
        return DT("b", d)
    if d == rnp.dtype(rnp.uint32):
        return DT("bv", d)
    if d.kind in "iu":
        return DT("i", d)
    if d.kind == "f":
        return DT("f", d)
    if d.kind in "SU":
        return DT("s", d)
    if d.kind == "O":
        return DT("obj", d)
    if d.subdtype is not None:
        return DT("sub", d)
    raise Unsupported(f"dtype {d}")


BOOL, INT, REAL = dt_of(bool), dt_of(rnp.int64), dt_of(rnp.float64)


def kind_of_value(v):
    if isinstance(v, (SBool, bool, rnp.bool_)):
        return BOOL
    if isinstance(v, SBV):
        return dt_of(rnp.uint32)
    if isinstance(v, (SNum,)):
        return INT if v.is_int else REAL
    if isinstance(v, (int, rnp.integer)):
        return INT
    if isinstance(v, (float, rnp.floating)):
        return REAL
    if isinstance(v, (SName, str, bytes)):
        return dt_of("S64")
    return dt_of(object)


WRAP_INTS = [False]


def cast_scalar(v, d):
    d = dt_of(d)
    if isinstance(v, SArr):
        return v.astype(d)
    if d.kind == "b":
        return sbool(v) if is_sym(v) else bool(v)
    if d.kind == "bv":
        if isinstance(v, SBV):
            return v if v.w == 32 else SBV(v._c(v) if v.w < 32 else z3.Extract(31, 0, v.e)) if v.w > 32 else SBV(z3.ZeroExt(32 - v.w, v.e))
        if not is_sym(v):
            return SBV(z3.BitVecVal(int(v) % (1 << 32), 32))
        if isinstance(v, SBool):
            return SBV(z3.If(v.e, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return SBV(z3.Int2BV(sint(v).e, 32))
    if d.kind == "i":
        if isinstance(v, SBV):
            v = num(v)
        r = sint(v)
        if is_sym(r) and d.np.itemsize < 8:
            # machine wrap of a narrow integer type, unless provably in range
            bits = d.np.itemsize * 8
            lo, hi = (0, (1 << bits) - 1) if d.np.kind == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
            c = ctx()
            if c.noforks or not c.provable(And(r >= lo, r <= hi), 1.0):
                m = num(r) % (1 << bits)
                if d.np.kind == "u":
                    r = m
                else:
                    r = ite(m > hi, m - (1 << bits), m)
        return r
    if d.kind == "f":
        if is_sym(v):
            return sfloat(v)
        return float(v)
    if d.kind == "s" and isinstance(v, (str, bytes)):
        return SName(SName.code(v))
    return v


# ---------------------------------------------------------------- stores
class Store:
    """mutable element store: get(idx tuple) -> scalar"""

    def __init__(self, fn, dtype):
        self.fn = fn
        self.dtype = dtype
        c = ctx()
        c.storectr += 1
        self.key = c.storectr
        if not hasattr(c, "_stores") or c._stores_gen is not c.counters:
            c._stores, c._stores_gen = {}, c.counters
        c._stores[self.key] = self

    def write(self, cond_of, val_of):
        """replace elements idx with cond_of(idx) by val_of(idx)"""
        store_written(self)
        old = self.fn
        self.fn = lambda idx: ite_l(cond_of(idx), lambda: val_of(idx), lambda: old(idx))

    def havoc(self, c):
        f = fresh_fn(c, f"hv{self.key}", self.dtype, getattr(self, "rank", 1))
        self.fn = f


def ite_l(c, a, b):
    if isinstance(c, SBool):
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return a()
        if z3.is_false(e):
            return b()
        return ite(c, a(), b())
    return a() if c else b()


def ALL_STORES(c):
    return getattr(c, "_stores", {})


def fresh_fn(c, name, dtype, rank):
    nm = c.fname(name)
    I = z3.IntSort()
    if dtype.kind == "rec":
        fns = {n: fresh_fn(c, nm + "." + n, dtype.fields[n], rank) for n in dtype.names}
        return lambda idx: SRec({n: fns[n](idx) for n in dtype.names}, dtype)
    if dtype.kind == "i":
        f = z3.Function(nm, *([I] * rank), I)
        lohi = None
        if dtype.np.itemsize <= 4:
            inf = rnp.iinfo(dtype.np)
            lohi = (int(inf.min), int(inf.max))

        def g(idx):
            t = f(*[num(i).e for i in idx])
            if lohi:
                cc = ctx()
                if cc.noforks == 0:
                    cc.axiom(z3.And(t >= lohi[0], t <= lohi[1]))
            return SNum(t)
        if lohi:
            vs = [z3.Int(f"r{i}") for i in range(rank)]
            t = f(*vs)
            c.axiom(z3.ForAll(vs, z3.And(t >= lohi[0], t <= lohi[1]), patterns=[t]))
        return g
    if dtype.kind == "f":
        f = z3.Function(nm, *([I] * rank), z3.RealSort())
        return lambda idx: SNum(f(*[num(i).e for i in idx]))
    if dtype.kind == "b":
        f = z3.Function(nm, *([I] * rank), z3.BoolSort())
        return lambda idx: SBool(f(*[num(i).e for i in idx]))
    if dtype.kind == "bv":
        f = z3.Function(nm, *([I] * rank), z3.BitVecSort(32))
        return lambda idx: SBV(f(*[num(i).e for i in idx]))
    if dtype.kind == "s":
        f = z3.Function(nm, *([I] * rank), STR)
        return lambda idx: SName(f(*[num(i).e for i in idx]))
    raise Unsupported(f"fresh array of {dtype}")


class SRec:
    """a structured element (value semantics)"""

    def __init__(self, d, dtype):
        self.d, self.dtype = d, dtype

    def __getitem__(self, k):
        if isinstance(k, int):
            k = self.dtype.names[k]
        return self.d[k]

    def __iter__(self):
        return iter([self.d[n] for n in self.dtype.names])

    def _ite_(self, c, o):
        return SRec({n: ite(c, self.d[n], o[n]) for n in self.dtype.names}, self.dtype)

    def __len__(self):
        return len(self.dtype.names)


class SArr(Sym):
    """symbolic array view"""
    __array_priority__ = 2000

    def __init__(self, shape, store, dtype, imap=None, field=None):
        self.shape = tuple(shape)
        self.store = store
        self._dt = dtype
        self.imap = imap or (lambda idx: idx)
        self.field = field

    def __setattr__(self, k, v):
        if k == "shape" and "shape" in self.__dict__ and tuple(v) != self.shape:
            if self.shape == () and tuple(v) == (1,):
                old = self.imap
                self.__dict__["imap"] = lambda idx: old(())
            elif len(self.shape) == 1 and len(v) == 2 and isinstance(v[1], int) and v[1] == 1:
                dim_eq(self.shape[0], v[0], "cannot reshape array")
                old = self.imap
                self.__dict__["imap"] = lambda idx: old((idx[0],))
            elif not (len(v) == len(self.shape) == 1):
                raise Unsupported("assignment to shape")
        self.__dict__[k] = v

    # -- description
    @property
    def ndim(self): return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r if not (isinstance(r, int) and r == 1) else s
        return r

    @property
    def dtype(self): return self._dt

    @property
    def nbytes(self): return self.size * self._dt.itemsize

    def slen(self): return self.shape[0]

    def __len__(self):
        n = self.shape[0]
        if is_sym(n):
            return ctx().concretize(num(n))
        return n

    __hash__ = None

    def _as_scalar_(self):
        if self.ndim == 0:
            return self.at()
        raise Unsupported("array where a scalar is needed")

    def at(self, *idx):
        v = self.store.fn(self.imap(tuple(idx)))
        if self.field is not None:
            v = v[self.field]
        return v

    def snap(self):
        """frozen element function"""
        fn, imap, fld = self.store.fn, self.imap, self.field
        if fld is None:
            return lambda *idx: fn(imap(tuple(idx)))
        return lambda *idx: fn(imap(tuple(idx)))[fld]

    def elem(self, k):
        return self.at(k) if self.ndim == 1 else self[k]

    def __iter__(self):
        n = self.shape[0]
        if not is_sym(n):
            return iter([self.elem(k) for k in range(n)])
        return pyvc.unroll_iter(self)

    # -- indexing
    def _norm_index(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        k = list(k)
        nreal = builtins.sum(1 for x in k if x is not None and x is not Ellipsis)
        if any(x is Ellipsis for x in k):
            p = [i for i, x in enumerate(k) if x is Ellipsis][0]
            k[p:p + 1] = [slice(None)] * (self.ndim - nreal)
        while builtins.sum(1 for x in k if x is not None) < self.ndim:
            k.append(slice(None))
        return k

    def _slice(self, s, n):
        """-> (start, count, step)"""
        st = 1 if s.step is None else s.step
        if is_sym(st):
            if not (num(st) > 0):
                raise Unsupported("negative symbolic step")
        elif st < 0:
            if s.start is None and s.stop is None:
                return n - 1, n, st
            return self._slice_back(s, n, st)

        def fix(v, dflt):
            if v is None:
                return dflt
            if isinstance(v, SArr):
                v = v._as_scalar_()
            v = num(v) if is_sym(v) else int(v)
            if not is_sym(v) and not is_sym(n):
                return v if 0 <= v <= n else (max(0, v + n) if v < 0 else n)
            c = ctx()
            if not is_sym(v):
                if v < 0:
                    if c.noforks or not c.provable(num(n) + v >= 0, 1.0):
                        return ite(num(n) + v < 0, 0, num(n) + v)
                    return num(n) + v
                if v == 0:
                    return 0
            elif c.noforks:
                v = ite(v < 0, ite(v + n < 0, 0, v + n), v)
                return ite(num(v) > n, n, v)
            else:
                if not (v >= 0):
                    v = ite(v + n < 0, 0, v + n)
                    return v
            if c.noforks:
                return ite(num(v) > n, n, v)
            if num(v) <= n:
                return v
            return n
        lo, hi = fix(s.start, 0), fix(s.stop, n)
        d = (hi - lo) if not (isinstance(lo, int) and lo == 0) else hi
        if not (isinstance(st, int) and st == 1):
            d = (num(d) + (st - 1)) // st if (is_sym(d) or is_sym(st)) else -(-d // st)
        if is_sym(d):
            if s.start is None or (isinstance(lo, int) and lo == 0):
                cnt = d
                if not ctx().provable(num(d) >= 0, 0.5):
                    cnt = ite(num(d) >= 0, d, 0)
            else:
                c = ctx()
                if c.noforks:
                    cnt = ite(num(d) >= 0, d, 0)
                else:
                    cnt = d if (num(d) >= 0) else 0
        else:
            cnt = max(d, 0)
        return lo, cnt, st

    def _slice_back(self, s, n, st):
        """start:stop:st for st < 0"""
        c = ctx()

        def fix(v, dflt):
            if v is None:
                return dflt
            if isinstance(v, SArr):
                v = v._as_scalar_()
            if not is_sym(v) and not is_sym(n):
                v = int(v) + n if v < 0 else int(v)
                return min(max(v, -1), n - 1)
            v, nn = num(v), num(n)
            if c.noforks:
                v = ite(v < 0, v + nn, v)
                return ite(v < 0, num(-1), ite(v >= nn, nn - 1, v))
            if v < 0:
                v = v + nn
                return v if v >= 0 else -1
            return v if v < nn else nn - 1
        lo, hi = fix(s.start, n - 1), fix(s.stop, -1)
        d = lo - hi if not (isinstance(hi, int) and hi == -1) else lo + 1
        if st != -1:
            d = (num(d) + (-st - 1)) // (-st) if is_sym(d) else -(-d // -st)
        if not is_sym(d):
            return lo, max(d, 0), st
        if c.noforks:
            return lo, ite(num(d) >= 0, d, 0), st
        return lo, (d if num(d) >= 0 else 0), st

    def _bound(self, k, n):
        """python index -> nonnegative, raising IndexError"""
        if isinstance(k, SArr):
            k = k._as_scalar_()
        if isinstance(k, SBV):
            k = num(k)
        if isinstance(k, SBool):
            raise Unsupported("boolean scalar index")
        c = ctx()
        if not is_sym(k) and not is_sym(n):
            k = int(k)
            if k < -n or k >= n:
                raise IndexError(f"index {k} is out of bounds for axis 0 with size {n}")
            return k + n if k < 0 else k
        k = num(k)
        if c.noforks:
            return wrap(z3.simplify(k.e)) if z3.is_int_value(z3.simplify(k.e)) and z3.simplify(k.e).as_long() >= 0 else k
        if k >= 0:
            if not (k < n):
                raise IndexError("index out of bounds")
            return k
        if not (k + n >= 0):
            raise IndexError("index out of bounds")
        return k + n

    def __getitem__(self, k):
        if isinstance(k, (str, SName)):
            if isinstance(k, SName):
                raise Unsupported("symbolic field name")
            r = SArr(self.shape, self.store, self._dt.fields[k], self.imap, k)
            if hasattr(self, "_plan"):
                r._plan, r._base = self._plan, self._base
            return r
        if isinstance(k, list) and k and isinstance(k[0], str):
            raise Unsupported("multi-field view")
        if isinstance(k, (SArr, rnp.ndarray, list)) :
            return take(self, k)
        ks = self._norm_index(k)
        if any(isinstance(x, (SArr, rnp.ndarray, list)) and not (isinstance(x, SArr) and x.ndim == 0) for x in ks):
            return take_nd(self, ks)
        dims, maps = [], []       # maps: function from new idx list -> old idx
        ax = 0
        out_ax = 0
        plan = []
        for x in ks:
            if x is None:
                dims.append(1)
                out_ax += 1
                continue
            n = self.shape[ax]
            if isinstance(x, slice):
                lo, cnt, st = self._slice(x, n)
                plan.append(("s", lo, st, out_ax))
                dims.append(cnt)
                out_ax += 1
            else:
                plan.append(("i", self._bound(x, n), None, None))
            ax += 1
        old = self.imap

        def imap(idx):
            o = []
            for t, a, st, oa in plan:
                if t == "i":
                    o.append(a)
                else:
                    v = idx[oa]
                    if not (isinstance(st, int) and st == 1):
                        v = v * st
                    if not (isinstance(a, int) and a == 0):
                        v = a + v
                    o.append(v)
            return old(tuple(o))
        r = SArr(dims, self.store, self._dt, imap, self.field)
        r._plan = plan
        r._base = self
        if not dims:
            v = r.at()
            if isinstance(v, SRec):
                return SRecView(r)
            return v
        return r

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self[k][...] = v
            return
        if isinstance(k, SArr) and k._dt.kind == "b":
            return self._set_mask(k, v)
        if isinstance(k, rnp.ndarray) and k.dtype == bool:
            return self._set_mask(as_arr(k), v)
        if isinstance(k, (SArr, rnp.ndarray, list)):
            raise Unsupported("fancy index store")
        ks = self._norm_index(k)
        if any(isinstance(x, SArr) and x._dt.kind == "b" and x.ndim for x in ks):
            if self.ndim == 2 and isinstance(ks[0], SArr) and isinstance(ks[1], slice):
                raise Unsupported("2-d masked store")
            if len(ks) == 1:
                return self._set_mask(ks[0], v)
            raise Unsupported("masked store")
        if any(isinstance(x, (SArr, rnp.ndarray, list)) and getattr(x, "ndim", 1) for x in ks):
            raise Unsupported("fancy index store")
        # basic
        saved = self
        dims, plan, ax = [], [], 0
        for x in ks:
            if x is None:
                raise Unsupported("newaxis store")
            n = self.shape[ax]
            if isinstance(x, slice):
                lo, cnt, st = self._slice(x, n)
                plan.append(("s", lo, st, cnt))
                dims.append(cnt)
            else:
                plan.append(("i", self._bound(x, n), None, None))
            ax += 1
        self._write(plan, dims, v)

    def _write(self, plan, dims, v):
        inv = inverse_map(self)
        fld = self.field
        dt = self._dt
        if isinstance(v, (list, tuple)) and dt.kind != "rec":
            v = as_arr(rnp.array(v)) if not any(is_sym(x) for x in v) else as_arr(v)
        if isinstance(v, rnp.ndarray):
            v = as_arr(v)
        if isinstance(v, SArr):
            check_broadcast(dims, v.shape)
            vf = v.snap()
            vshape = v.shape
            nd = len(dims)

            def val(coord):
                co = list(coord)[nd - len(vshape):]
                co = [0 if (not is_sym(s) and s == 1) else x for s, x in zip(vshape, co)]
                return cast_elem(vf(*co), dt)
        elif isinstance(v, (tuple, SRecView, SRec)) and dt.kind == "rec":
            items = list(v)
            rec = SRec({n: cast_elem(items[i], dt.fields[n]) for i, n in enumerate(dt.names)}, dt)

            def val(coord): return rec
        else:
            sv = cast_elem(v, dt)

            def val(coord): return sv

        # all elements of an array that is not a view: elements beyond its end do not exist
        whole = not hasattr(self, "_plan") and len(plan) == self.ndim and all(
            t == "s" and isinstance(a, int) and a == 0 and isinstance(st, int) and st == 1 and z3.is_true(z3.simplify(num(cnt).e == num(n).e))
            for (t, a, st, cnt), n in zip(plan, self.shape))

        def locate(sidx):
            """store index -> (condition, coordinates in the written block)"""
            c0, idx = inv(sidx)
            conds = [c0] if c0 is not True else []
            coord = []
            for (t, a, st, cnt), x in zip(plan, idx):
                if t == "i":
                    conds.append(num(x) == a)
                else:
                    d = num(x) - a if not (isinstance(a, int) and a == 0) else num(x)
                    if isinstance(st, int) and st < 0:
                        d = -d
                        if st != -1:
                            conds.append(d % -st == 0)
                            d = d // -st
                        conds.append(d >= 0)
                    elif not (isinstance(st, int) and st == 1):
                        conds.append(d % st == 0)
                        d = d // st
                    if not (isinstance(a, int) and a == 0) or c0 is not True:
                        conds.append(d >= 0)
                    if not (whole and c0 is True):
                        conds.append(d < cnt)
                    coord.append(d)
            return (And(*conds) if conds else True), coord
        if fld is None:
            self.store.write(lambda s: locate(s)[0], lambda s: val(locate(s)[1]))
        else:
            store_written(self.store)
            old = self.store.fn

            def newfn(s):
                r = old(s)
                cnd, co = locate(s)
                d = dict(r.d)
                d[fld] = ite_l(cnd, lambda: val(co), lambda: r.d[fld])
                return SRec(d, r.dtype)
            self.store.fn = newfn

    def _set_mask(self, m, v):
        """self[m] = v with boolean m over the leading axes"""
        if m.ndim != 1:
            raise Unsupported("multi-dim mask")
        dim_eq(self.shape[0], m.shape[0], "boolean index did not match indexed array")
        mf = m.snap()
        inv = inverse_map(self)
        fld, dt = self.field, self._dt
        if isinstance(v, rnp.ndarray):
            v = as_arr(v)
        if isinstance(v, SArr) and v.ndim == 1 and getattr(v, "_sel", None) is not None:
            # value computed on the same selection: back-map through the selection
            sel = v._sel
            if sel.same_mask(m):
                vf = v.snap()

                def val(idx): return cast_elem(vf(sel.rank(idx[0])), dt)
            else:
                raise Unsupported("masked store from a different selection")
        elif isinstance(v, SArr) and v.ndim >= 1:
            selm = Selection.of(m)
            dim_eq(v.shape[0], selm.count, "shape mismatch in masked store")
            vf = v.snap()

            def val(idx): return cast_elem(vf(selm.rank(idx[0])), dt)
        else:
            if isinstance(v, SArr):
                v = v._as_scalar_()
            sv = cast_elem(v, dt)

            def val(idx): return sv

        def cond(s):
            c0, idx = inv(s)
            b = sbool(mf(idx[0]))
            return b if c0 is True else And(c0, b)
        if fld is None:
            self.store.write(cond, lambda s: val(inv(s)[1]))
        else:
            store_written(self.store)
            old = self.store.fn

            def newfn(s):
                r = old(s)
                d = dict(r.d)
                d[fld] = ite_l(cond(s), lambda: val(inv(s)[1]), lambda: r.d[fld])
                return SRec(d, r.dtype)
            self.store.fn = newfn

    # -- elementwise
    def map(self, f, dt=None):
        g = self.snap()
        r = lazy(self.shape, lambda *i: f(g(*i)), dt or self._dt)
        if getattr(self, "_sel", None) is not None:
            r._sel = self._sel
        return r

    def _e(self, o, f, rev=False, dt=None):
        return elementwise(f, (o, self) if rev else (self, o), dt)

    def __add__(self, o): return self._e(o, operator.add)
    def __radd__(self, o): return self._e(o, operator.add, True)
    def __sub__(self, o): return self._e(o, operator.sub)
    def __rsub__(self, o): return self._e(o, operator.sub, True)
    def __mul__(self, o): return self._e(o, operator.mul)
    def __rmul__(self, o): return self._e(o, operator.mul, True)
    def __truediv__(self, o): return NotImplemented if isinstance(o, Ghost) else self._e(o, _tdiv, dt=REAL)
    def __rtruediv__(self, o): return self._e(o, _tdiv, True, dt=REAL)
    def __floordiv__(self, o): return self._e(o, operator.floordiv)
    def __rfloordiv__(self, o): return self._e(o, operator.floordiv, True)
    def __mod__(self, o): return self._e(o, operator.mod)
    def __pow__(self, o): return self._e(o, operator.pow)
    def __rpow__(self, o): return self._e(o, operator.pow, True)
    def __and__(self, o): return self._e(o, _and)
    def __rand__(self, o): return self._e(o, _and, True)
    def __or__(self, o): return self._e(o, _or)
    def __ror__(self, o): return self._e(o, _or, True)
    def __xor__(self, o): return self._e(o, operator.xor)
    def __lshift__(self, o): return self._e(o, operator.lshift)
    def __rshift__(self, o): return self._e(o, operator.rshift)
    def __lt__(self, o): return self._e(o, operator.lt, dt=BOOL)
    def __le__(self, o): return self._e(o, operator.le, dt=BOOL)
    def __gt__(self, o): return self._e(o, operator.gt, dt=BOOL)
    def __ge__(self, o): return self._e(o, operator.ge, dt=BOOL)
    def __eq__(self, o): return False if o is None else self._e(o, _eq, dt=BOOL)
    def __ne__(self, o): return True if o is None else self._e(o, _ne, dt=BOOL)
    def __neg__(self): return self.map(operator.neg)
    def __invert__(self): return self.map(invert_scalar(self._dt))
    def __abs__(self): return self.map(abs)

    def _inplace(self, o, f):
        r = elementwise(f, (self, o))
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace(o, operator.add)
    def __isub__(self, o): return self._inplace(o, operator.sub)
    def __imul__(self, o): return self._inplace(o, operator.mul)
    def __itruediv__(self, o): return self._inplace(o, _tdiv)
    def __iand__(self, o): return self._inplace(o, _and)
    def __ior__(self, o): return self._inplace(o, _or)

    def __bool__(self):
        n = self.size
        if not is_sym(n) and n == 1:
            return bool(self.at(*([0] * self.ndim)))
        if is_sym(n) and bool(num(n) == 1):
            return bool(self.at(*([0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __contains__(self, x):
        return bool(any_(self == x))

    # -- methods
    def astype(self, d, copy=True):
        d = dt_of(d)
        g = self.snap()
        r = lazy(self.shape, lambda *i: cast_scalar(g(*i), d), d)
        if getattr(self, "_sel", None) is not None:
            r._sel = self._sel
        return r

    def copy(self):
        g = self.snap()
        return lazy(self.shape, g, self._dt)

    def view(self, *a):
        if a and isinstance(a[0], type) and not issubclass(a[0], rnp.generic):
            return self
        if a and dt_of(a[0]) == self._dt:
            return self
        raise Unsupported("view")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False): return sum_(self, axis)
    def mean(self, axis=None, dtype=None): return mean_(self, axis)
    def min(self, axis=None): return minmax(self, -1, axis)
    def max(self, axis=None): return minmax(self, +1, axis)
    def argmin(self, axis=None): return argminmax(self, -1, axis)
    def argmax(self, axis=None): return argminmax(self, +1, axis)
    def any(self, axis=None): return any_(self, axis)
    def all(self, axis=None): return all_(self, axis)
    def std(self, axis=None):
        v = self.var(axis)
        if isinstance(v, SArr) and v.ndim:
            g = v.snap()
            return lazy(v.shape, lambda *i: pyvc.sqrt(g(*i)), REAL)
        return pyvc.sqrt(v)

    def var(self, axis=None):
        if axis is not None and self.ndim == 2:
            a = self if axis in (0, -2) else self.T
            f, n = a.snap(), a.shape[0]
            return lazy((a.shape[1],), lambda j: lazy((n,), lambda i: f(i, j), self._dt).var(), REAL)
        m = mean_(self, axis)
        if axis is None:
            return mean_((self - m) ** 2)
        raise Unsupported("var axis")

    def nonzero(self): return (nonzero1(self),)
    def dot(self, o): return dot(self, o)
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)

    @property
    def T(self):
        if self.ndim == 1:
            return self
        old = self.imap
        return SArr(self.shape[::-1], self.store, self._dt, lambda idx: old(tuple(idx[::-1])), self.field)

    def transpose(self): return self.T

    def ravel(self):
        return self.reshape(-1)

    def flatten(self): return self.copy().reshape(-1)

    def squeeze(self): raise Unsupported("squeeze")

    def item(self): return self._as_scalar_() if self.ndim == 0 else self.at(*([0] * self.ndim))

    def tolist(self): return list(self)

    def fill(self, v): self[...] = v

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if self.ndim == 1 and len(shape) == 1:
            return self
        if self.ndim == 1 and len(shape) == 2:
            a, b = shape
            n = self.shape[0]
            if a == -1:
                a = num(n) // b
            if b == -1:
                b = num(n) // a
            dim_eq(num(a) * b, n, "cannot reshape array")
            old = self.imap
            return SArr((a, b), self.store, self._dt, lambda idx: old((idx[0] * b + idx[1],)), self.field)
        if self.ndim == 2 and len(shape) == 1:
            b = self.shape[1]
            g = self.snap()
            return lazy((self.size,), lambda i: g(num(i) // b, num(i) % b), self._dt)
        if self.ndim == len(shape) :
            for x, y in zip(self.shape, shape):
                if not (isinstance(y, int) and y == -1):
                    dim_eq(x, y, "cannot reshape array")
            return self
        raise Unsupported("reshape")

    def sort(self):
        r = sort_(self)
        self[...] = r

    def argsort(self, kind=None): return argsort(self)

    def __repr__(self): return f"SArr({self.shape},{self._dt})"

    @property
    def name(self): raise AttributeError("name")


class SRecView:
    """arr[i] of a structured array: reads current, writes through"""

    def __init__(self, a):
        self.a = a
        self.dtype = a._dt

    def __getitem__(self, k):
        return self.a.at()[k]

    def __setitem__(self, k, v):
        if isinstance(k, int):
            k = self.dtype.names[k]
        self.a[k]._write([], [], v)

    def __iter__(self):
        return iter(self.a.at())

    def __len__(self):
        return len(self.dtype.names)


class Selection:
    """positions of the True elements of a mask, in order"""

    def __init__(self, n, mf, key):
        c = ctx()
        self.n, self.mf, self.key = n, mf, key
        k = c.fname("sel")
        I = z3.IntSort()
        self.f = z3.Function(k, I, I)
        self.g = z3.Function(k + "_rank", I, I)
        self.count = c.int(k + "_cnt", lo=0)
        m = self.count.e
        nn = num(n).e
        j, i = z3.Int("sj"), z3.Int("si")
        mi = lambda t: sbool(mf(SNum(t))).e
        c.noforks += 1
        try:
            c.axiom(m <= z3.If(nn >= 0, nn, 0))
            c.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(self.f(j) >= 0, self.f(j) < nn, mi(self.f(j)),
                                                                             self.g(self.f(j)) == j)), patterns=[self.f(j)]))
            c.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nn, mi(i)), z3.And(self.g(i) >= 0, self.g(i) < m,
                                                                                   self.f(self.g(i)) == i)), patterns=[self.g(i)]))
            a, b = z3.Ints("sa sb")
            c.axiom(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), self.f(a) < self.f(b)),
                              patterns=[z3.MultiPattern(self.f(a), self.f(b))]))
            # any true element has a rank (trigger on the mask itself is given on demand by rank())
        finally:
            c.noforks -= 1

    def pos(self, j):
        # the position of the rank of i is i: for a True element by the axioms; elsewhere rank and
        # position are unconstrained and may be taken to be inverse to each other
        e = z3.simplify(num(j).e)
        if z3.is_app(e) and e.num_args() == 1 and e.decl().eq(self.g):
            return SNum(e.arg(0))
        return SNum(self.f(num(j).e))

    def rank(self, i):
        return SNum(self.g(num(i).e))

    def same_mask(self, m):
        return Selection.of(m) is self

    @staticmethod
    def of(m):
        c = ctx()
        t = z3.Int("!msk")
        c.noforks += 1
        try:
            body = z3.simplify(sbool(m.snap()(SNum(t))).e)
        finally:
            c.noforks -= 1
        n = z3.simplify(num(m.shape[0]).e)
        key = (body.get_id(), n.get_id())
        c.keep.extend([body, n])
        if key in c.sel_memo:
            return c.sel_memo[key]
        # a mask that provably equals an earlier one selects the same elements
        for (bid, nid), s in list(c.sel_memo.items()):
            if nid == key[1]:
                q = z3.Int("!mq")
                d = z3.And(q >= 0, q < n, sbool(s.mf(SNum(q))).e != z3.substitute(body, (t, q)))
                if c._solve(d, 1.0, second=False)[0] == "unsat":
                    c.sel_memo[key] = s
                    return s
        s = Selection(m.shape[0], m.snap(), key)
        c.sel_memo[key] = s
        return s


def inverse_map(a):
    """function: store index -> (condition, view index).  Built from the chain of basic slicings."""
    chain = []
    x = a
    while hasattr(x, "_plan"):
        chain.append((x._plan, len(x.shape)))
        x = x._base
    if getattr(x, "_opaque", False):
        raise Unsupported("write through a derived view")
    chain.reverse()

    def inv(sidx):
        conds, idx = [], list(sidx)
        for plan, nd in chain:
            new = [0] * nd
            for (t, av, st, oa), v in zip(plan, idx):
                if t == "i":
                    conds.append(num(v) == av)
                else:
                    d = num(v) - av if not (isinstance(av, int) and av == 0) else num(v)
                    if not (isinstance(st, int) and st == 1):
                        if isinstance(st, int) and st == -1:
                            d = -d
                        else:
                            conds.append(d % st == 0)
                            d = d // st
                    conds.append(d >= 0)
                    new[oa] = d
            idx = new
        if not chain:
            return True, list(sidx)
        # the upper bounds of intermediate views
        x = a
        for dpos, dim in enumerate(a.shape):
            conds.append(num(idx[dpos]) < dim)
        return (And(*conds) if conds else True), idx
    return inv


def cast_elem(v, dt):
    if isinstance(v, SArr) and v.ndim == 0:
        v = v._as_scalar_()
    if dt.kind == "s" and isinstance(v, (str, bytes)):
        return SName(SName.code(v))
    if dt.kind in ("s", "obj"):
        return v
    if dt.kind == "rec":
        if isinstance(v, SRec):
            return SRec({n: cast_elem(v.d[n], dt.fields[n]) for n in dt.names}, dt)
        return v
    return cast_scalar(v, dt)


def lazy(shape, f, dt):
    st = Store(lambda idx: f(*idx), dt)
    st.rank = len(shape)
    return SArr(shape, st, dt)


def as_arr(x, dt=None):
    if isinstance(x, SArr):
        return x
    if isinstance(x, rnp.ndarray):
        d = dt_of(x.dtype)
        y = x.copy()

        def f(*idx):
            if all(not is_sym(i) for i in idx):
                v = y[tuple(int(i) for i in idx)]
                if d.kind == "rec":
                    return SRec({n: (v[n].item() if d.fields[n].kind != "bv" else cast_scalar(v[n].item(), d.fields[n])) for n in d.names}, d)
                v = v.item() if hasattr(v, "item") else v
                if d.kind == "bv":
                    return cast_scalar(v, d)
                return v
            if y.ndim == 1 and len(y) <= 64:
                r = None
                for k in range(len(y) - 1, -1, -1):
                    v = f(k)
                    r = v if r is None else ite(num(idx[0]) == k, v, r)
                if r is None:
                    raise Unsupported("element of empty array")
                return r
            raise Unsupported("symbolic index into a large concrete array")
        return lazy(y.shape, f, d)
    if isinstance(x, (list, tuple)):
        if not x:
            return as_arr(rnp.array(x))
        if any(isinstance(v, SArr) and v.ndim for v in x) or any(isinstance(v, (list, tuple, rnp.ndarray)) for v in x):
            rows = [as_arr(v) for v in x]
            return stack_rows(rows)
        items = [v._as_scalar_() if isinstance(v, SArr) else v for v in x]
        d = dt or common_dt([kind_of_value(v) for v in items])
        items = [cast_elem(v, d) for v in items]

        def f(i):
            if not is_sym(i):
                return items[int(i)]
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ite(num(i) == k, items[k], r)
            return r
        return lazy((len(items),), f, d)
    if isinstance(x, SSeq):
        k = kind_of_value(x.elem(ctx().int("tmpk")))
        return lazy((x.slen(),), lambda i: x.elem(i), dt or k)
    if isinstance(x, pyvc.SRange):
        return lazy((x.slen(),), lambda i: x.elem(i), dt or INT)
    if isinstance(x, (SNum, SBool, SBV, int, float, bool, rnp.generic)):
        return lazy((), lambda: x, kind_of_value(x))
    raise Unsupported(f"array from {type(x).__name__}")


def stack_rows(rows):
    n0 = rows[0].shape
    for r in rows[1:]:
        for a, b in zip(n0, r.shape):
            dim_eq(a, b, "inhomogeneous rows")
    d = common_dt([r._dt for r in rows])
    fs = [r.snap() for r in rows]

    def f(i, *rest):
        if not is_sym(i):
            return fs[int(i)](*rest)
        r = fs[-1](*rest)
        for k in range(len(fs) - 2, -1, -1):
            r = ite(num(i) == k, fs[k](*rest), r)
        return r
    return lazy((len(rows),) + tuple(n0), f, d)


def common_dt(ds):
    ks = {d.kind for d in ds}
    if len(ks) == 1:
        k = ks.pop()
        if k in ("i", "f"):
            b = ds[0]
            for d in ds[1:]:
                b = DT(k, rnp.promote_types(b.np, d.np)) if b.np is not None and d.np is not None else b
            return dt_of(b.np)
        return ds[0]
    if ks <= {"b", "i"}:
        return INT
    if ks <= {"bv", "i", "b"}:
        return [d for d in ds if d.kind == "bv"][0]
    if "f" in ks and ks <= {"f", "i", "b", "bv"}:
        return REAL
    if "obj" in ks:
        return dt_of(object)
    raise Unsupported(f"mixed array element types {ks}")


def dim_eq(a, b, msg):
    if not is_sym(a) and not is_sym(b):
        if a != b:
            raise ValueError(f"{msg}: {a} != {b}")
        return
    if not (num(a) == num(b)):
        raise ValueError(msg)


def check_broadcast(dims, vshape):
    off = len(dims) - len(vshape)
    if off < 0:
        # leading ones allowed
        for s in vshape[:-off]:
            dim_eq(s, 1, "could not broadcast input array")
        vshape = vshape[-off:]
        off = 0
    for d, s in zip(dims[off:], vshape):
        if not is_sym(s) and s == 1:
            continue
        dim_eq(d, s, "could not broadcast input array")


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        cur = 1
        for s in shapes:
            p = ax - (nd - len(s))
            if p < 0:
                continue
            d = s[p]
            if not is_sym(d) and d == 1:
                continue
            if not is_sym(cur) and cur == 1:
                cur = d
            else:
                if d is not cur:
                    dim_eq(cur, d, "operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def elementwise(f, args, dt=None):
    arrs = []
    for a in args:
        if isinstance(a, (list, tuple)):
            a = rnp.array(a) if not _deep_sym(a) else as_arr(a)
        if isinstance(a, rnp.ndarray):
            a = as_arr(a)
        if isinstance(a, rnp.generic) and not is_sym(a):
            a = a.item() if a.dtype.kind != "S" else bytes(a)
        arrs.append(a)
    shapes = [a.shape for a in arrs if isinstance(a, SArr)]
    if not shapes:
        return f(*arrs)
    shape = bshape(shapes)
    fs = []
    for a in arrs:
        if isinstance(a, SArr):
            g, sh = a.snap(), a.shape

            def h(idx, g=g, sh=sh):
                co = idx[len(idx) - len(sh):]
                return g(*[0 if (not is_sym(s) and s == 1 and not (is_sym(shape[k + len(idx) - len(sh)]) is False and shape[k + len(idx) - len(sh)] == 1)) else x
                           for k, (s, x) in enumerate(zip(sh, co))])
            fs.append(h)
        else:
            fs.append(lambda idx, a=a: a)
    if dt is None:
        dt = result_dt(f, arrs)
    if any((not is_sym(s)) and s == 0 for s in shape):
        pass

    def el(*idx):
        return f(*[g(idx) for g in fs])
    r = lazy(shape, el, dt)
    sels = [a._sel for a in arrs if isinstance(a, SArr) and getattr(a, "_sel", None) is not None]
    if sels and all(s is sels[0] for s in sels):
        r._sel = sels[0]
    return r


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(v) for v in x)
    return is_sym(x)


def result_dt(f, arrs):
    ds = []
    for a in arrs:
        if isinstance(a, SArr):
            ds.append(a._dt)
        elif isinstance(a, (SName, str, bytes)):
            ds.append(dt_of("S64"))
        elif a is None:
            ds.append(dt_of(object))
        else:
            ds.append(kind_of_value(a))
    pyscalar = [not isinstance(a, SArr) and not isinstance(a, (SBV,)) for a in arrs]
    if f in (_tdiv,):
        return REAL
    # python scalars are weak
    strong = [d for d, w in zip(ds, pyscalar) if not w]
    weak = [d for d, w in zip(ds, pyscalar) if w]
    d = common_dt(strong) if strong else common_dt(ds)
    for w in weak:
        if w.kind == "f" and d.kind in "ib":
            d = REAL
        elif w.kind == "f" and d.kind == "bv":
            d = REAL
        elif w.kind == "i" and d.kind == "b":
            d = INT
    if d.kind == "b" and f in (operator.add, operator.mul, operator.sub):
        d = BOOL if f is operator.mul or f is operator.add else INT
    return d


def _tdiv(a, b):
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            raise Unsupported("division by literal zero")
        return a / b
    return sfloat(a) / sfloat(b)


def _and(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (SBool, bool, rnp.bool_)) and isinstance(b, (SBool, bool, rnp.bool_)):
            return And(a, b)
    return a & b


def _or(a, b):
    if isinstance(a, (SBool, bool, rnp.bool_)) and isinstance(b, (SBool, bool, rnp.bool_)):
        return Or(a, b) if is_sym(a) or is_sym(b) else (a or b)
    return a | b


def _eq(a, b):
    if isinstance(a, str) and isinstance(b, bytes) or isinstance(a, bytes) and isinstance(b, str):
        a = a.encode() if isinstance(a, str) else a
        b = b.encode() if isinstance(b, str) else b
    return a == b


def _ne(a, b):
    r = _eq(a, b)
    return Not(r) if isinstance(r, SBool) else (not r)


def invert_scalar(dt):
    if dt.kind == "b":
        return lambda v: Not(v) if is_sym(v) else (not v)
    if dt.kind == "bv":
        return lambda v: ~v
    if dt.kind == "i":
        # bitwise not of a machine integer: unsigned b bits -> 2^b-1-v ; signed -> -v-1
        if dt.np is not None and dt.np.kind == "u":
            top = (1 << (8 * dt.np.itemsize)) - 1
            return lambda v: top - v
        return lambda v: -v - 1
    raise Unsupported("~ on " + dt.kind)


# ---------------------------------------------------------------- selection / fancy
def take(a, k):
    if isinstance(k, (list, tuple)):
        k = rnp.array(k, dtype=int if not k else None) if not _deep_sym(k) else as_arr(k)
    if isinstance(k, rnp.ndarray):
        if not (k.dtype == bool):
            ks = as_arr(k)
            return _take_int(a, ks)
        k = as_arr(k)
    if k._dt.kind == "b":
        if k.ndim == a.ndim and k.ndim > 1:
            raise Unsupported("n-d mask")
        dim_eq(a.shape[0], k.shape[0], "boolean index did not match indexed array")
        if not is_sym(k.shape[0]) and k.shape[0] <= 64 and a._dt.kind in ("rec", "s"):
            return ConcSel(a, k)
        s = Selection.of(k)
        g = a.snap()
        r = lazy((s.count,) + a.shape[1:], lambda j, *rest: g(s.pos(j), *rest), a._dt)
        if a.ndim == 1:
            r._sel = s
        return r
    return _take_int(a, k)


def _take_int(a, k):
    g = a.snap()
    n = a.shape[0]
    kf = k.snap()
    c = ctx()
    neg_possible = not getattr(k, "_nonneg", False)

    def at(v):
        if not is_sym(v):
            v = int(v)
            return v if v >= 0 else num(n) + v
        if neg_possible:
            return ite(num(v) < 0, num(v) + n, v)
        return v
    c.note_assumption("integer-array indices are within bounds (numpy raises otherwise)")
    r = lazy(k.shape + a.shape[1:], lambda *i: g(at(kf(*i[:k.ndim])), *i[k.ndim:]), a._dt)
    return r


def take_nd(a, ks):
    if a.ndim == 2 and len(ks) == 2:
        x, y = ks
        if isinstance(x, (SArr, rnp.ndarray, list)) and isinstance(y, slice):
            return take(a if y == slice(None) else a[:, y], x)
        if isinstance(y, (SArr, rnp.ndarray, list)) and isinstance(x, slice):
            b = a[x, :] if x != slice(None) else a
            t = b.T
            return take(t, y).T
    if len(ks) == 1:
        return take(a, ks[0])
    raise Unsupported("fancy n-d indexing")


class ConcSel:
    """rows of a small concrete-length table selected by a symbolic mask; [0] gives the first one"""

    def __init__(self, a, k):
        self.a, self.k = a, k
        self.n = k.shape[0]

    def __getitem__(self, i):
        if isinstance(i, str):
            return ConcSel(self.a[i], self.k)
        if isinstance(i, int) and i == 0:
            if not bool(any_(self.k)):
                raise IndexError("index 0 is out of bounds for axis 0 with size 0")
            return self._first()
        raise Unsupported("element of a selected table")

    def _first(self):
        r = self.a.at(self.n - 1)
        for j in range(self.n - 2, -1, -1):
            b = self.a.at(j)
            c = self.k.at(j)
            if isinstance(r, SRec):
                r = SRec({n: ite(c, b.d[n], r.d[n]) for n in r.d}, r.dtype)
            else:
                r = ite(c, b, r)
        return r

    def materialise(self):
        """compact list of (condition, row)"""
        return [(self.k.at(j), self.a.at(j)) for j in range(self.n)]


def nonzero1(a):
    if a.ndim != 1:
        raise Unsupported("nonzero of n-d")
    m = a if a._dt.kind == "b" else a.map(lambda v: sbool(v), BOOL)
    s = Selection.of(m)
    r = lazy((s.count,), lambda j: s.pos(j), INT)
    r._nonneg = True
    r._sel = s
    return r


# ---------------------------------------------------------------- reductions
def _rng(a, f):
    """fold over a concrete-length 1-d array"""
    return [a.at(i) for i in range(a.shape[0])]


def sum_(a, axis=None):
    a = as_arr(a)
    g = a.snap()
    conv = (lambda v: num(v) if isinstance(v, (SBool, SBV)) else v)
    if a.ndim == 1 and axis in (None, 0, -1):
        n = a.shape[0]
        return Sum(lambda i: conv(g(i)), 0, n)
    if a.ndim == 2:
        n, m = a.shape
        if axis is None:
            return Sum(lambda i: num(Sum(lambda j: conv(g(i, j)), 0, m)), 0, n)
        if axis in (1, -1):
            return lazy((n,), lambda i: Sum(lambda j: conv(g(i, j)), 0, m), a._dt)
        return lazy((m,), lambda j: Sum(lambda i: conv(g(i, j)), 0, n), a._dt)
    if a.ndim == 0:
        return a.at()
    raise Unsupported("sum of n-d")


def mean_(a, axis=None):
    a = as_arr(a)
    if a.ndim == 1:
        return sfloat(sum_(a)) / sfloat(num(a.shape[0])) if is_sym(a.shape[0]) or is_sym(sum_(a)) else sum_(a) / a.shape[0]
    if axis is None:
        return sfloat(sum_(a)) / sfloat(num(a.size))
    s = sum_(a, axis)
    k = a.shape[1] if axis in (1, -1) else a.shape[0]
    return s / k


def any_(a, axis=None):
    if isinstance(a, (bool, SBool)):
        return a
    a = as_arr(a)
    if a.ndim != 1:
        if a.ndim == 0:
            return sbool(a.at())
        if a.ndim == 2 and axis == 1:
            g, m = a.snap(), a.shape[1]
            return lazy((a.shape[0],), lambda i: pyvc.exists(lambda j: And(j >= 0, j < m, g(i, j))), BOOL)
        raise Unsupported("any n-d")
    n = a.shape[0]
    if not is_sym(n):
        return Or(*[sbool(a.at(i)) for i in range(n)]) if n else SBool(z3.BoolVal(False))
    g = a.snap()
    return pyvc.exists(lambda i: And(i >= 0, i < n, sbool(g(i))))


def all_(a, axis=None):
    if isinstance(a, (bool, SBool)):
        return a
    a = as_arr(a)
    if a.ndim == 0:
        return sbool(a.at())
    if a.ndim != 1:
        raise Unsupported("all n-d")
    n = a.shape[0]
    if not is_sym(n):
        return And(*[sbool(a.at(i)) for i in range(n)]) if n else SBool(z3.BoolVal(True))
    g = a.snap()
    return forall(lambda i: Implies(And(i >= 0, i < n), sbool(g(i))))


def _canon(a, what):
    """memo key for a reduction over a 1-d array"""
    c = ctx()
    t = z3.Int("!red")
    c.noforks += 1
    try:
        b = z3.simplify(num(a.snap()(SNum(t))).e)
    finally:
        c.noforks -= 1
    n = z3.simplify(num(a.shape[0]).e)
    c.keep.extend([b, n])
    return (what, b.get_id(), n.get_id()), b


def minmax(a, sgn, axis=None):
    a = as_arr(a)
    if a.ndim == 2 and axis in (1, -1):
        k = argminmax(a, sgn, axis)
        g = a.snap()
        kf = k.snap()
        return lazy((a.shape[0],), lambda i: g(i, kf(i)), a._dt)
    if a.ndim != 1:
        raise Unsupported("min/max n-d")
    k = argminmax(a, sgn)
    return a.at(k)


def argminmax(a, sgn, axis=None):
    """index of the first extreme element"""
    a = as_arr(a)
    c = ctx()
    if a.ndim == 2 and axis in (1, -1):
        m = a.shape[1]
        g = a.snap()
        if c.noforks == 0 and not (num(m) > 0):
            raise ValueError("attempt to get argmax of an empty sequence")
        fn = z3.Function(c.fname("argext2"), z3.IntSort(), z3.IntSort())
        i, j = z3.Ints("ai aj")
        gi = lambda p, q: num(g(SNum(p), SNum(q))).e
        k = fn(i)
        cmpf = (lambda x, y: x >= y) if sgn > 0 else (lambda x, y: x <= y)
        c.noforks += 1
        try:
            c.axiom(z3.ForAll([i], z3.And(k >= 0, k < num(m).e), patterns=[k]))
            c.axiom(z3.ForAll([i, j], z3.Implies(z3.And(j >= 0, j < num(m).e),
                                                 z3.And(cmpf(gi(i, k), gi(i, j)),
                                                        z3.Implies(j < k, gi(i, j) != gi(i, k)))),
                              patterns=[z3.MultiPattern(k, gi(i, j))] if not z3.is_arith(0) and _pat_ok(gi(i, j)) else []))
        finally:
            c.noforks -= 1

        def inst(p, q):
            """the axiom for one row and column"""
            p, q = num(p), num(q)
            kk = SNum(fn(p.e))
            x, y = num(g(p, kk)), num(g(p, q))
            return Implies(And(q >= 0, q < m), And(x >= y if sgn > 0 else x <= y, Implies(q < kk, x != y)))
        c.args2.append(inst)
        return lazy((a.shape[0],), lambda i: SNum(fn(num(i).e)), INT)
    if a.ndim != 1:
        raise Unsupported("argmin n-d")
    n = a.shape[0]
    if not (num(n) > 0):
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    key, _ = _canon(a, ("arg", sgn))
    if not hasattr(c, "_red") or c._red_gen is not c.counters:
        c._red, c._red_gen = {}, c.counters
    if key in c._red:
        return c._red[key]
    k = c.int("argext")
    g = a.snap()
    c.axiom(And(k >= 0, k < n))
    v = g(k)
    if sgn > 0:
        c.axiom(forall(lambda j: Implies(And(j >= 0, j < n), And(num(g(j)) <= v, Implies(j < k, num(g(j)) < v)))))
    else:
        c.axiom(forall(lambda j: Implies(And(j >= 0, j < n), And(num(g(j)) >= v, Implies(j < k, num(g(j)) > v)))))
    c._red[key] = k
    return k


def _pat_ok(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED


def dot(a, b):
    if isinstance(a, (list, tuple, rnp.ndarray)):
        a = as_arr(a)
    if isinstance(b, (list, tuple, rnp.ndarray)):
        b = as_arr(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        return a * b
    f, g = a.snap(), b.snap()
    if a.ndim == 1 and b.ndim == 1:
        dim_eq(a.shape[0], b.shape[0], "shapes not aligned")
        return Sum(lambda i: num(f(i)) * g(i), 0, a.shape[0])
    if a.ndim == 2 and b.ndim == 1:
        dim_eq(a.shape[1], b.shape[0], "shapes not aligned")
        return lazy((a.shape[0],), lambda i: Sum(lambda j: num(f(i, j)) * g(j), 0, b.shape[0]), common_dt([a._dt, b._dt]))
    if a.ndim == 1 and b.ndim == 2:
        dim_eq(a.shape[0], b.shape[0], "shapes not aligned")
        return lazy((b.shape[1],), lambda j: Sum(lambda i: num(f(i)) * g(i, j), 0, a.shape[0]), common_dt([a._dt, b._dt]))
    if a.ndim == 2 and b.ndim == 2:
        dim_eq(a.shape[1], b.shape[0], "shapes not aligned")
        return lazy((a.shape[0], b.shape[1]), lambda i, j: Sum(lambda k: num(f(i, k)) * g(k, j), 0, a.shape[1]),
                    common_dt([a._dt, b._dt]))
    raise Unsupported("dot")


class Perm:
    """a sorting permutation of 1-d array a (stable when asked)"""
    pass


def argsort(a, kind=None):
    a = as_arr(a)
    n = a.shape[0]
    c = ctx()
    if not is_sym(n) and n <= 1:
        return as_arr(rnp.arange(n))
    key, _ = _canon(a, ("argsort",))
    if not hasattr(c, "_red") or c._red_gen is not c.counters:
        c._red, c._red_gen = {}, c.counters
    if key in c._red:
        o = c._red[key]
        r = o.copy()
        r._nonneg, r._perm = True, o._perm
        return r
    nm = c.fname("argsort")
    I = z3.IntSort()
    p, q = z3.Function(nm, I, I), z3.Function(nm + "_inv", I, I)
    g = a.snap()
    i, j = z3.Ints("pi pj")
    nn = num(n).e
    c.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nn), z3.And(p(i) >= 0, p(i) < nn, q(p(i)) == i)), patterns=[p(i)]))
    c.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nn), z3.And(q(i) >= 0, q(i) < nn, p(q(i)) == i)), patterns=[q(i)]))
    c.noforks += 1
    try:
        gp = lambda t: num(g(SNum(t))).e
        c.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < nn), gp(p(i)) <= gp(p(j))),
                          patterns=[z3.MultiPattern(p(i), p(j))]))
    finally:
        c.noforks -= 1
    r = lazy((n,), lambda k: SNum(p(num(k).e)), INT)
    r._nonneg = True
    r._perm = (p, q)
    c._red[key] = r.copy()
    c._red[key]._nonneg, c._red[key]._perm = True, (p, q)
    return r


def sort_(a):
    return take(as_arr(a), argsort(a))


# ---------------------------------------------------------------- constructors
def full(shape, v, dtype=None):
    if not isinstance(shape, tuple):
        shape = (shape,) if not isinstance(shape, list) else tuple(shape)
    shape = tuple(s._as_scalar_() if isinstance(s, SArr) else s for s in shape)
    d = dt_of(dtype) if dtype is not None else kind_of_value(v)
    if d.kind == "rec":
        def zero(dt):
            if dt.kind == "s":
                return b""
            return cast_scalar(0, dt)
        rec = SRec({n: zero(d.fields[n]) for n in d.names}, d)
        return lazy(shape, lambda *i: rec, d)
    if d.kind == "s":
        return lazy(shape, lambda *i: b"", d)
    if d.kind == "obj":
        return lazy(shape, lambda *i: v, d)
    sv = cast_scalar(v, d)
    return lazy(shape, lambda *i: sv, d)


def fresh(c, name, shape, dtype=float):
    """a fresh unconstrained array"""
    if not isinstance(shape, tuple):
        shape = (shape,)
    d = dt_of(dtype)
    st = Store(fresh_fn(c, name, d, len(shape)), d)
    st.rank = len(shape)
    return SArr(shape, st, d)


def any_sym(*xs):
    for x in xs:
        if isinstance(x, (Sym, SSeq, pyvc.SRange, ConcSel)):
            return True
        if isinstance(x, (list, tuple)) and any_sym(*x):
            return True
        if isinstance(x, dict) and any_sym(*x.values()):
            return True
        if isinstance(x, slice) and any_sym(x.start, x.stop, x.step):
            return True
    return False


def hstack(parts, dt=None, axis=None):
    parts = [as_arr(p) if not isinstance(p, (int, float, SNum)) else as_arr([p]) for p in parts]
    parts = [p if p.ndim else lazy((1,), lambda i, p=p: p.at(), p._dt) for p in parts]
    if any(p.ndim > 1 for p in parts) and axis is None:
        axis = 1
    if axis in (1, -1) and all(p.ndim == 2 for p in parts):
        return hstack([p.T for p in parts], dt, axis=0).T
    if axis not in (None, 0) or len({p.ndim for p in parts}) != 1:
        raise Unsupported("joining arrays along axis %s" % (axis,))
    if parts[0].ndim > 1:
        for p in parts[1:]:
            for k in range(1, p.ndim):
                dim_eq(parts[0].shape[k], p.shape[k], "all the input array dimensions except for the concatenation axis must match exactly")
    live = [p for p in parts if not (not is_sym(p.shape[0]) and p.shape[0] == 0)]
    if not live:
        return parts[0].copy()
    d = live[0]._dt if live[0]._dt.kind in ("rec", "s") else common_dt([p._dt for p in live])
    fs = [(p.snap(), p.shape[0]) for p in live]
    tot = 0
    for _, n in fs:
        tot = n + tot if not (isinstance(tot, int) and tot == 0) else n
    rest = live[0].shape[1:]

    def f(i, *r):
        off = 0
        segs = []
        for g, n in fs:
            segs.append((off, g, n))
            off = n + off if not (isinstance(off, int) and off == 0) else n
        if not is_sym(i) and all(not is_sym(o) for o, _, _ in segs) and not is_sym(off):
            for o, g, n in segs:
                if o <= i < o + n:
                    return g(i - o, *r)
            raise IndexError("hstack index")
        o, g, n = segs[-1]
        v = g(i - o if not (isinstance(o, int) and o == 0) else i, *r)
        for o, g, n in reversed(segs[:-1]):
            x = g(i - o if not (isinstance(o, int) and o == 0) else i, *r)
            cnd = num(i) < (o + n if not (isinstance(o, int) and o == 0) else n)
            if isinstance(v, SRec):
                v = SRec({k: ite(cnd, x.d[k], v.d[k]) for k in v.d}, v.dtype)
            else:
                v = ite(cnd, cast_elem(x, d), cast_elem(v, d))
        return v if isinstance(v, SRec) else cast_elem(v, d)
    return lazy((tot,) + tuple(rest), f, d)


class NpType:
    """np.uint32 etc. usable as a constructor on symbolic values"""

    def __init__(self, t):
        self._np_ = t
        self.dtype = rnp.dtype(t)
        self.__name__ = t.__name__

    def __call__(self, *a, **k):
        if a and any_sym(a[0]):
            if isinstance(a[0], (list, tuple)):
                return as_arr(a[0]).astype(self._np_)
            return cast_scalar(a[0], self._np_)
        return self._np_(*a, **k)

    def __eq__(self, o):
        return self._np_ == getattr(o, "_np_", o)

    def __hash__(self):
        return hash(self._np_)


class NP:
    """the `numpy` seen by code under contract"""
    ndarray = rnp.ndarray
    nan, inf, pi, e, newaxis = rnp.nan, rnp.inf, rnp.pi, rnp.e, None
    dtype = rnp.dtype
    generic = rnp.generic

    def __init__(self):
        self._types = {}
        self.linalg = NPsub(rnp.linalg, {})
        self.random = rnp.random
        self.fft = NPsub(rnp.fft, {})
        self.lib = rnp.lib
        self.ma = rnp.ma
        self.extra = {}

    def __getattr__(self, k):
        if k in self.__dict__.get("extra", {}):
            return self.extra[k]
        f = SYM.get(k)
        real = getattr(rnp, k, None)
        if real is None:
            if f is not None:
                return f
            raise AttributeError(f"module 'numpy' has no attribute {k!r}")
        if isinstance(real, type) and issubclass(real, rnp.generic):
            t = self._types.get(k)
            if t is None:
                t = self._types[k] = NpType(real)
            return t
        if not callable(real) or isinstance(real, type):
            return real
        force = k in ALWAYS

        def call(*a, **kw):
            kw = {x: (y._np_ if isinstance(y, NpType) else (y._builtin_ if hasattr(y, "_builtin_") else y)) for x, y in kw.items()}
            a = tuple(y._np_ if isinstance(y, NpType) else (y._builtin_ if hasattr(y, "_builtin_") else y) for y in a)
            if any_sym(*a) or any_sym(kw):
                if f is None:
                    raise Unsupported(f"np.{k} on symbolic values")
                return f(*a, **kw)
            if force and pyvc.VCTX is not None:
                return f(*a, **kw)
            return real(*a, **kw)
        call.__name__ = k
        if isinstance(real, rnp.ufunc):
            return UF(k, call, real)
        return call


class UF:
    def __init__(self, name, call, real):
        self.name, self.call, self.real = name, call, real

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def reduce(self, x, **k):
        if any_sym(x):
            raise Unsupported("ufunc.reduce")
        return self.real.reduce(x, **k)

    def accumulate(self, x):
        raise Unsupported("ufunc.accumulate") if any_sym(x) else self.real.accumulate(x)


class NPsub:
    def __init__(self, mod, tbl):
        self.mod, self.tbl = mod, tbl

    def __getattr__(self, k):
        real = getattr(self.mod, k)
        f = self.tbl.get(k)
        if not callable(real) or isinstance(real, type):
            return real

        def call(*a, **kw):
            if any_sym(*a) or any_sym(kw):
                if f is None:
                    raise Unsupported(f"{self.mod.__name__}.{k} on symbolic values")
                return f(*a, **kw)
            return real(*a, **kw)
        return call


def _ew(f, dt=None):
    def g(*a, **kw):
        out = kw.pop("out", None)
        kw.pop("dtype", None)
        r = elementwise(f, a, dt)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _where(c, a=None, b=None):
    if a is None:
        return (nonzero1(as_arr(c)),)
    return elementwise(lambda x, y, z: ite(x, y, z), (c, a, b), dt=common_dt([_dtv(a), _dtv(b)]))


def _dtv(a):
    if isinstance(a, SArr):
        return a._dt
    if isinstance(a, rnp.ndarray):
        return dt_of(a.dtype)
    return kind_of_value(a)


def _asarray(x, dtype=None, copy=None, **k):
    if isinstance(x, ConcSel):
        raise Unsupported("array of a table selection")
    a = as_arr(x) if not isinstance(x, SArr) else x
    if dtype is not None and dt_of(dtype) != a._dt:
        return a.astype(dtype)
    return a


def _array(x, dtype=None, copy=True, **k):
    if isinstance(x, (list, tuple)) and dtype is not None and dt_of(dtype).kind == "rec":
        d = dt_of(dtype)
        recs = [SRec({n: cast_elem(v[i], d.fields[n]) for i, n in enumerate(d.names)}, d) for v in x]

        def f(i):
            if not is_sym(i):
                return recs[int(i)]
            r = recs[-1]
            for kk in range(len(recs) - 2, -1, -1):
                r = SRec({n: ite(num(i) == kk, recs[kk].d[n], r.d[n]) for n in d.names}, d)
            return r
        return lazy((len(recs),), f, d)
    a = as_arr(x)
    return a.astype(dtype) if dtype is not None and dt_of(dtype) != a._dt else a.copy()


def _arange(*a, dtype=None, **k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    isint = all((isinstance(v, (int, rnp.integer)) or (isinstance(v, SNum) and v.is_int)) for v in (lo, hi, st))
    if isint:
        r = pyvc.SRange(lo, hi, st)
        out = lazy((r.slen(),), lambda i: r.elem(i), INT)
    else:
        if not isinstance(st, (int, float)) or st <= 0:
            raise Unsupported("arange step")
        q = (sfloat(hi) - sfloat(lo)) / st
        nn = -SNum(z3.ToInt((-q).e))
        out = lazy((ite(nn > 0, nn, 0),), lambda i: sfloat(num(i)) * st + lo, REAL)
    return out.astype(dtype) if dtype is not None else out


def _shape_only(v):
    def f(shape, dtype=None, **k):
        return full(shape, v if dtype is not None else float(v), dtype)
    return f


def _empty(shape, dtype=None, **k):
    c = ctx()
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = tuple(s._as_scalar_() if isinstance(s, SArr) else s for s in shape)
    d = dt_of(dtype if dtype is not None else float)
    if d.kind in ("obj", "sub"):
        return full(shape, None, object)
    return fresh(c, "empty", shape, d)


def _like(v):
    def f(a, dtype=None, **k):
        a = as_arr(a) if not isinstance(a, SArr) else a
        return full(a.shape, v, dtype or a._dt)
    return f


def _clip(a, lo, hi, out=None):
    def one(v):
        r = v
        if lo is not None:
            r = ite(num(r) < lo, lo, r)
        if hi is not None:
            r = ite(num(r) > hi, hi, r)
        return r
    if isinstance(a, SArr):
        r = a.map(one)
        if out is not None:
            out[...] = r
            return out
        return r
    return one(a)


def _unary(nm, pre=None):
    def one(v):
        return ufun(nm, v) if is_sym(v) else getattr(math, nm)(v)
    return _ew(one, REAL)


def _diff(a, n=1, axis=-1):
    a = as_arr(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def _isfinite(a):
    return elementwise(lambda v: True, (a,), BOOL) if isinstance(a, SArr) else True


def _isnan(a):
    return elementwise(lambda v: False, (a,), BOOL) if isinstance(a, SArr) else False


def _size(a):
    if isinstance(a, SArr):
        return a.size
    if isinstance(a, (list, tuple)):
        return len(a) if not any(isinstance(x, (list, tuple)) for x in a) else rnp.size(a)
    return 1


def _vstack(parts):
    parts = [as_arr(p) for p in parts]
    if all(p.ndim == 1 for p in parts):
        return stack_rows(parts)
    raise Unsupported("vstack")


def _append(a, b):
    return hstack([a, b])


def _insert(a, k, v):
    a = as_arr(a)
    if isinstance(k, SArr) and k.ndim:
        raise Unsupported("insert many")
    g, n = a.snap(), a.shape[0]
    d = common_dt([a._dt, _dtv(v)]) if a._dt.kind != "s" else a._dt
    vv = v._as_scalar_() if isinstance(v, SArr) else v
    kk = num(k)
    return lazy((n + 1,), lambda i: ite_l(num(i) < kk, lambda: g(i), lambda: ite_l(num(i) == kk, lambda: vv, lambda: g(i - 1))), d)


def _delete(a, k):
    a = as_arr(a)
    g, n = a.snap(), a.shape[0]
    if not (is_sym(k) or isinstance(k, int)) or isinstance(k, SArr) and k.ndim:
        raise Unsupported("delete many")
    kk = a._bound(k, n)
    return lazy((num(n) - 1,), lambda i: ite_l(num(i) < kk, lambda: g(i), lambda: g(i + 1)), a._dt)


def _searchsorted(a, v, side="left", sorter=None):
    """a sorted (assumed): number of elements < v (left) or <= v (right)"""
    c = ctx()
    a = as_arr(a)
    n = a.shape[0]
    g = a.snap()
    if sorter is not None:
        raise Unsupported("sorter")
    if isinstance(v, (list, rnp.ndarray)):
        v = as_arr(v)
    c.note_assumption("np.searchsorted returns the insertion point of a sorted array (numpy contract)")
    if isinstance(v, SArr) and v.ndim:
        vf = v.snap()
        nm = c.fname("ssorted")
        F = z3.Function(nm, z3.IntSort(), z3.IntSort())
        q, j = z3.Ints("ssq ssj")
        c.noforks += 1
        try:
            val = num(vf(SNum(q))).e
            below = num(g(SNum(j))).e
            val, below = pyvc._coerce(val, below)
            lt = (below < val) if side == "left" else (below <= val)
            c.axiom(z3.ForAll([q], z3.And(F(q) >= 0, F(q) <= num(n).e), patterns=[F(q)]))
            c.axiom(z3.ForAll([q, j], z3.Implies(z3.And(j >= 0, j < num(n).e), (j < F(q)) == lt),
                              patterns=[z3.MultiPattern(F(q), num(g(SNum(j))).e)] if _pat_ok(num(g(SNum(j))).e) else []))
        finally:
            c.noforks -= 1
        return lazy(v.shape, lambda i: SNum(F(num(i).e)), INT)
    if isinstance(v, SArr):
        v = v._as_scalar_()
    k = c.int("ssorted", lo=0)
    c.axiom(And(k >= 0, k <= n))
    if side == "left":
        c.axiom(forall(lambda j: Implies(And(j >= 0, j < n), pyvc.Iff(j < k, num(g(j)) < v))))
    else:
        c.axiom(forall(lambda j: Implies(And(j >= 0, j < n), pyvc.Iff(j < k, num(g(j)) <= v))))
    return k


def _cumsum(a):
    a = as_arr(a)
    g = a.snap()
    return lazy(a.shape, lambda i: Sum(lambda t: num(g(t)), 0, num(i) + 1), a._dt)


def _allclose(*a, **k):
    raise Unsupported("allclose")


def _median(a):
    raise Unsupported("median")


def _argwhere(a):
    raise Unsupported("argwhere")


def _unique(a, **k):
    raise Unsupported("unique")


def _iscl(a): return False


def _max(a, axis=None): return minmax(a, 1, axis)
def _min(a, axis=None): return minmax(a, -1, axis)


SYM = {
    "add": _ew(operator.add), "subtract": _ew(operator.sub), "multiply": _ew(operator.mul),
    "divide": _ew(_tdiv, REAL), "true_divide": _ew(_tdiv, REAL), "negative": _ew(operator.neg),
    "logical_and": _ew(lambda a, b: And(sbool(a), sbool(b)), BOOL), "logical_or": _ew(lambda a, b: Or(sbool(a), sbool(b)), BOOL),
    "logical_not": _ew(lambda a: Not(sbool(a)), BOOL), "bitwise_and": _ew(_and), "bitwise_or": _ew(_or),
    "invert": lambda a: ~a, "bitwise_not": lambda a: ~a,
    "equal": _ew(_eq, BOOL), "not_equal": _ew(_ne, BOOL), "less": _ew(operator.lt, BOOL),
    "less_equal": _ew(operator.le, BOOL), "greater": _ew(operator.gt, BOOL), "greater_equal": _ew(operator.ge, BOOL),
    "minimum": _ew(pyvc.smin2), "maximum": _ew(pyvc.smax2), "fmin": _ew(pyvc.smin2), "fmax": _ew(pyvc.smax2),
    "abs": _ew(abs), "absolute": _ew(abs), "fabs": _ew(abs),
    "sqrt": _ew(pyvc.sqrt, REAL), "square": _ew(lambda v: v * v), "exp": _unary("exp"), "log": _unary("log"),
    "sin": _unary("sin"), "cos": _unary("cos"), "arctan": _unary("atan"),
    "power": _ew(operator.pow), "right_shift": _ew(operator.rshift), "left_shift": _ew(operator.lshift),
    "floor": _ew(lambda v: SNum(z3.ToReal(z3.ToInt(sfloat(v).e))) if is_sym(v) else math.floor(v), REAL),
    "ceil": _ew(lambda v: SNum(-z3.ToReal(z3.ToInt(-sfloat(v).e))) if is_sym(v) else math.ceil(v), REAL),
    "rint": _ew(lambda v: sfloat(rint(sfloat(v))), REAL), "round": _ew(lambda v: sfloat(rint(sfloat(v))), REAL),
    "where": _where, "nonzero": lambda a: (nonzero1(as_arr(a)),), "flatnonzero": lambda a: nonzero1(as_arr(a)),
    "asarray": _asarray, "array": _array, "asanyarray": _asarray, "ascontiguousarray": _asarray, "asfarray": _asarray,
    "arange": _arange, "zeros": _shape_only(0), "ones": _shape_only(1), "empty": _empty,
    "full": lambda s, v, dtype=None: full(s, v, dtype), "full_like": lambda a, v, dtype=None: full(as_arr(a).shape, v, dtype or as_arr(a)._dt),
    "zeros_like": _like(0), "ones_like": _like(1), "empty_like": lambda a, dtype=None, **k: _empty(as_arr(a).shape, dtype or as_arr(a)._dt),
    "sum": lambda a, axis=None, **k: sum_(a, axis), "mean": lambda a, axis=None: mean_(a, axis),
    "any": any_, "all": all_, "max": _max, "min": _min, "amax": _max, "amin": _min,
    "argmax": lambda a, axis=None: argminmax(a, 1, axis), "argmin": lambda a, axis=None: argminmax(a, -1, axis),
    "std": lambda a, axis=None: as_arr(a).std(axis), "var": lambda a, axis=None: as_arr(a).var(axis),
    "dot": dot, "vdot": dot, "inner": dot, "matmul": dot, "clip": _clip, "diff": _diff, "isfinite": _isfinite, "isnan": _isnan, "isinf": _isnan,
    "size": _size, "result_type": lambda *a: common_dt([dt_of(x) if isinstance(x, (type, rnp.dtype)) else x._dt if isinstance(x, SArr) else rnp.result_type(x) for x in a]), "hstack": hstack, "concatenate": lambda p, axis=0: hstack(p, axis=axis), "vstack": _vstack, "append": _append,
    "insert": _insert, "delete": _delete, "searchsorted": _searchsorted, "argsort": argsort, "sort": sort_, "cumsum": _cumsum,
    "atleast_1d": lambda a: a if isinstance(a, SArr) and a.ndim else as_arr([a]), "isscalar": lambda a: not isinstance(a, SArr),
    "ravel": lambda a: as_arr(a).ravel(), "copy": lambda a: as_arr(a).copy(), "shape": lambda a: as_arr(a).shape,
    "ndim": lambda a: as_arr(a).ndim, "transpose": lambda a: as_arr(a).T, "array_equal": lambda a, b: _array_equal(a, b),
    "float64": sfloat, "sign": _ew(lambda v: ite(num(v) > 0, 1, ite(num(v) < 0, -1, 0))),
    "squeeze": lambda a: a, "allclose": _allclose, "median": _median, "roll": lambda *a: _unsup("roll"),
    "outer": lambda a, b: lazy((as_arr(a).shape[0], as_arr(b).shape[0]),
                               (lambda f, g: (lambda i, j: num(f(i)) * g(j)))(as_arr(a).snap(), as_arr(b).snap()), REAL),
}


def _unsup(n):
    raise Unsupported("np." + n)


def _array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if not bool(num(a.shape[0]) == num(b.shape[0])):
        return False
    return all_(a == b)


# functions that build arrays the code will later index or store symbolically into
ALWAYS = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like"}
np = NP()
