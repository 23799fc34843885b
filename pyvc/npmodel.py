"""Contract models of the numpy functions the code under verification calls (trusted; cross-checked by selftest.py
against the real numpy on concrete arrays)."""
import builtins
import itertools
import types
from . import terms as T
from .terms import Term, Unsupported, lift
from .arr import SArr, Store, concrete_mask, dim, elem, same_dim, Where, Selected, is_bool, memo_fn

nan = T.NAN
OOB = T.sym("out_of_bounds", "R")
pi = T.sym("pi", "R")
inf = "inf"


class _DType(object):
    def __init__(self, name): self.name = name
    def __call__(self, x=0): return asarray(x) if isinstance(x, (list, SArr)) else x
    def __repr__(self): return "dtype:" + self.name
    def __eq__(self, o): return isinstance(o, _DType) and o.name == self.name or o == self.name
    def __hash__(self): return hash(self.name)


float32, float64, int32, int64, int8, bool_, int16 = [_DType(n) for n in ("float32", "float64", "int32", "int64", "int8", "bool", "int16")]
integer, floating = int32, float64
uint8, uint16, uint32, uint64, float16 = [_DType(n) for n in ("uint8", "uint16", "uint32", "uint64", "float16")]
NARROW = {"int8": (-128, 127), "int16": (-32768, 32767), "uint8": (0, 255), "uint16": (0, 65535)}
newaxis = None


def _shape(s):
    if isinstance(s, (tuple, list)): return tuple(dim(x) for x in s)
    return (dim(s),)


def _dt(dtype):
    """Type names ("i4", "float64", ...) as the model's types; other type objects stay as they are."""
    if not isinstance(dtype, str): return dtype
    import numpy
    try: n = numpy.dtype(dtype).name
    except TypeError: raise TypeError("data type %r not understood" % dtype)
    if n == "object": return builtins.object
    return _DType(n)


def _zero_of(dtype):
    if dtype is not None and (dtype is builtins.bool or isinstance(dtype, _DType) and dtype.name == "bool" or getattr(dtype, "__name__", "") == "vbool"):
        return T.FALSE
    if isinstance(dtype, _DType) and dtype.name.startswith("int"): return T.const(0)
    return T.real(0)


def _only(k, *names):
    for n in k:
        if n not in names and not (n == "dtype" and k[n] is None): raise Unsupported("keyword " + n)


def _kind(a, dtype):
    """Element type of a new array: assigning non-integers to an integer array would truncate (not modelled)."""
    if isinstance(dtype, _DType) and dtype.name not in ("float32", "float64", "bool", "int32", "int64", "datetime", "object"): raise Unsupported("array of type " + dtype.name)
    if isinstance(dtype, _DType) and dtype.name.startswith("int") or dtype is builtins.int: a.store.kind = "i"
    return a


def _cast(a, dtype):
    """dtype conversion: the value is kept; conversions that could change it are not modelled."""
    dtype = _dt(dtype)
    n = dtype.name if isinstance(dtype, _DType) else getattr(dtype, "__name__", None)
    if dtype is None or n in ("float32", "float64", "float", "vfloat", "object", "datetime", "str", "object_"): return a
    if n in NARROW:
        if not all(isinstance(x, builtins.int) for x in a.shape): raise Unsupported("conversion of arbitrary numbers to %s" % n)
        for i in itertools.product(*[range(x) for x in a.shape]):
            v = a.at(*i)
            if not (T.is_const(v) and NARROW[n][0] <= v.args[0] <= NARROW[n][1]): raise Unsupported("conversion of arbitrary numbers to %s" % n)
    if n in ("int32", "int64", "int", "vint") or n in NARROW:
        f, obj = a.frozen(), a.store.obj
        from .arr import int_value
        return _kind(SArr.of(a.shape, memo_fn(lambda *i: int_value(f(*i))), obj), int32)
    if n in ("bool", "vbool", "bool_"):
        f = a.frozen()
        return SArr.of(a.shape, memo_fn(lambda *i: T.boolify(f(*i))))
    raise Unsupported("conversion to %s" % n)


def zeros(shape, dtype=None, **k):
    _only(k, "order")
    dtype = _dt(dtype)
    z = _zero_of(dtype)
    return _kind(SArr.of(_shape(shape), lambda *i: z), dtype)


def ones(shape, dtype=None, **k):
    _only(k, "order")
    dtype = _dt(dtype)
    o = T.TRUE if _zero_of(dtype) is T.FALSE else (T.const(1) if _zero_of(dtype).sort == "I" else T.real(1))
    return _kind(SArr.of(_shape(shape), lambda *i: o), dtype)


def empty(shape, dtype=None, **k):
    """Uninitialised memory: arbitrary values."""
    _only(k, "order")
    dtype = _dt(dtype)
    sh = _shape(shape)
    z = _zero_of(dtype)
    name = "uninitialised%d" % next(_uninit)
    if z is T.FALSE: return SArr.of(sh, lambda *i: T.lt(T.const(0), T.app(name, list(i), "I")))
    return _kind(SArr.of(sh, lambda *i: T.app(name, list(i), z.sort)), dtype)


_uninit = itertools.count()


def empty_like(a, dtype=None, **k):
    _only(k)
    a = asarray(a)
    return empty(a.shape, dtype=int32 if dtype is None and a.store.kind == "i" else dtype)


def full(shape, v, dtype=None):
    v = elem(v)
    return _cast(SArr.of(_shape(shape), lambda *i: v), dtype)


def zeros_like(a, dtype=None, **k):
    _only(k)
    a = asarray(a)
    return zeros(a.shape, dtype=int32 if dtype is None and a.store.kind == "i" else dtype)


def ones_like(a, dtype=None, **k):
    _only(k)
    a = asarray(a)
    return ones(a.shape, dtype=int32 if dtype is None and a.store.kind == "i" else dtype)


def eye(n, dtype=None, **k):
    return SArr.of((n, n), lambda i, j: T.ite(T.eq(lift(i), lift(j)), T.real(1), T.real(0)))


def arange(*a, **k):
    kind = k.pop("dtype", None)
    if k or len(a) > 2: raise Unsupported("arange with a step")
    if kind is not None: return arange(*a).astype(kind)
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    return SArr.of((dim(lift(hi) - lift(lo)),), lambda i: lift(lo) + i)


def linspace(a, b, num=50, **k):
    _only(k)
    n = dim(num)
    a, b = lift(a), lift(b)
    # numpy: num == 1 gives only the start
    return SArr.of((n,), lambda i: T.ite(T.eq(lift(n), T.const(1)), a, a + lift(i) * (b - a) / T.toreal(lift(n) - 1)))


def _from_seq(seq):
    """Nested python lists / arrays of concrete length -> SArr."""
    seq = list(seq)
    n = len(seq)
    if n and isinstance(seq[0], (list, tuple)) or n and isinstance(seq[0], SArr) and seq[0].ndim > 0:
        rows = [asarray(r) for r in seq]
        sh = rows[0].shape
        for r in rows[1:]:
            if len(r.shape) != len(sh) or not all(same_dim(x, y) for x, y in zip(r.shape, sh)):
                raise Unsupported("ragged array")
        fs = [r.frozen() for r in rows]

        def fn(i, *rest):
            i = lift(i)
            if i.op == "const": return fs[i.args[0]](*rest)
            r = fs[-1](*rest)
            for k in range(n - 2, -1, -1): r = T.ite(T.eq(i, T.const(k)), fs[k](*rest), r)
            return r
        return SArr.of((n,) + sh, memo_fn(fn))
    vals = [elem(v.at() if isinstance(v, SArr) else v) for v in seq]
    obj = not all(isinstance(v, Term) for v in vals)

    def fn(i):
        i = lift(i)
        if i.op == "const": return vals[i.args[0]] if -1 < i.args[0] < n else OOB
        if not n: return OOB
        if obj:
            from . import ctx
            for k in range(n - 1):
                if ctx.current().decide(T.eq(i, T.const(k))): return vals[k]
            return vals[-1]
        r = vals[-1]
        for k in range(n - 2, -1, -1): r = T.ite(T.eq(i, T.const(k)), vals[k], r)
        return r
    r = SArr.of((n,), memo_fn(fn), obj)
    if not obj and n: r.store.kind = "i" if all(v.sort == "I" for v in vals) else "b" if all(v.sort == "B" for v in vals) else "f"
    return r


def asarray(a, dtype=None, **k):
    _only(k, "copy", "order")
    if dtype is not None: return _cast(asarray(a), dtype)
    if isinstance(a, SArr): return a
    if hasattr(a, "__pyvc_array__"): return a.__pyvc_array__()
    if isinstance(a, (list, tuple)): return _from_seq(a)
    if T.liftable(a):
        v = lift(a)
        return SArr.of((), lambda: v)
    import numpy
    if isinstance(a, numpy.ndarray): return _from_seq(a.tolist()) if a.ndim else asarray(a.item())
    if isinstance(a, range): return _from_seq(list(a))
    raise Unsupported("asarray of %s" % type(a).__name__)


def array(a, dtype=None, **k):
    _only(k, "copy", "order")
    if dtype is not None: a = _cast(asarray(a), dtype)
    r = asarray(a)
    return r.copy() if r is a else r


def bcast(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        ds = [s[ax - nd + len(s)] for s in shapes if ax - nd + len(s) >= 0]
        r = 1
        for d in ds:
            if isinstance(d, int) and d == 1: continue
            if isinstance(r, int) and r == 1:
                r = d
                continue
            if not same_dim(r, d):
                from . import ctx
                if not ctx.current().decide(T.eq(lift(r), lift(d))):
                    if ctx.current().decide(T.eq(lift(d), T.const(1))): continue
                    if ctx.current().decide(T.eq(lift(r), T.const(1))):
                        r = d
                        continue
                    raise ValueError("operands could not be broadcast together")
        out.append(r)
    return tuple(out)


def ewise(f, *args):
    if any(isinstance(a, Selected) for a in args): return ewise_selected(f, args)
    arrs = [asarray(a) for a in args]
    shape = bcast([a.shape for a in arrs])
    nd = len(shape)
    getters = []
    for a in arrs:
        fr, sh = a.frozen(), a.shape
        off = nd - len(sh)
        st = [isinstance(s, int) and s == 1 and not (isinstance(shape[off + i], int) and shape[off + i] == 1) for i, s in enumerate(sh)]
        getters.append((fr, off, st))

    def fn(*i):
        return f(*[fr(*[0 if s else x for s, x in zip(st, i[off:])]) for fr, off, st in getters])
    r = SArr.of(shape, memo_fn(lambda *i: elem(fn(*i))))
    if nd == 0: return r.at()
    return r


def ewise_selected(f, args):
    sel = [a for a in args if isinstance(a, Selected)]
    if any(not s.whole() or not s.like(sel[0]) for s in sel): raise Unsupported("arithmetic on elements selected by different conditions")
    if any(isinstance(a, SArr) and a.ndim > 0 for a in args): raise Unsupported("arithmetic of selected elements with an array")
    return Selected(ewise(f, *[a.base if isinstance(a, Selected) else a for a in args]), sel[0].where, sel[0].ax)


def _u(name):
    def g(x, *a, **k):
        if a or k: raise Unsupported("extra arguments of " + name)
        if isinstance(x, (SArr, Selected)): return ewise(lambda v: T.fn(name, v), x)
        return T.fn(name, x)
    g.__name__ = name
    return g


exp, cos, sin, sqrt, log = [_u(n) for n in ("exp", "cos", "sin", "sqrt", "log")]


def _b(f):
    def g(a, b, out=None):
        r = ewise(f, a, b)
        if out is None: return r
        out[...] = r
        return out
    return g


add, subtract, multiply, divide, power, less, less_equal, greater, greater_equal, equal, not_equal = [_b(f) for f in (
    lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b, lambda a, b: a / b, lambda a, b: a ** b,
    lambda a, b: a < b, lambda a, b: a <= b, lambda a, b: a > b, lambda a, b: a >= b, lambda a, b: a == b, lambda a, b: a != b)]
true_divide = divide
maximum = _b(lambda a, b: T.ite(T.lt(lift(a), lift(b)), b, a))
minimum = _b(lambda a, b: T.ite(T.lt(lift(b), lift(a)), b, a))


def negative(a): return ewise(lambda x: -x, a)
def square(a): return ewise(lambda x: x * x, a)


def clip(a, lo, hi, out=None):
    r = asarray(a)
    if lo is not None: r = maximum(r, lo)
    if hi is not None: r = minimum(r, hi)
    if out is None: return r
    out[...] = r
    return out


def copyto(dst, src, **k):
    _only(k)
    dst[...] = src


def repeat(a, n, axis=None):
    a = asarray(a)
    if isinstance(n, (SArr, list, tuple)) or axis not in (None, 0) or a.ndim > 1: raise Unsupported("repeat")
    if a.ndim == 0: return full(n, a.at())
    if a.shape[0] != 1: raise Unsupported("repeat of an array")
    return full(n, a.at(0))


def transpose(a, axes=None):
    if axes is not None: raise Unsupported("transpose with axes")
    return asarray(a).T


def ravel(a, order="C"): return asarray(a).ravel(order)
def reshape(a, shape): return asarray(a).reshape(shape)


def squeeze(a, axis=None):
    if axis is not None: raise Unsupported("squeeze of one axis")
    a = asarray(a)
    from . import ctx
    keep = [d for d in a.shape if not (isinstance(d, builtins.int) and d == 1)]
    for d in keep:
        if not isinstance(d, builtins.int) and ctx.current().decide(T.eq(lift(d), T.const(1))): raise Unsupported("squeeze of an array of symbolic shape")
    return a.reshape(*keep) if keep else a.at(*[0] * a.ndim)


def atleast_1d(a):
    a = asarray(a)
    return asarray([a.at()]) if a.ndim == 0 else a


def atleast_2d(a):
    a = asarray(a)
    return asarray([[a.at()]]) if a.ndim == 0 else a[None, :] if a.ndim == 1 else a


def flip(a, axis=None):
    a = asarray(a)
    if a.ndim == 1 and axis in (None, 0): return a[::-1]
    raise Unsupported("flip")


def tile(a, reps):
    a = asarray(a)
    if a.ndim != 1 or not isinstance(reps, builtins.int): raise Unsupported("tile")
    return concatenate([a] * reps) if reps > 0 else zeros(0)


def absolute(x): return ewise(abs, x)


fabs = absolute


def isnan(x):
    return ewise(lambda v: T.app("isnan", [v], "B") if v is not T.NAN else T.TRUE, x)


def rint(x): return ewise(lambda v: v if v.sort == "I" else T.toreal(T.app("round", [v], "I")), x)


def around(x, decimals=0):
    if decimals: raise Unsupported("rounding to digits")
    return rint(x)


def floor(x): return ewise(lambda v: v if v.sort == "I" else T.toreal(T.app("floor", [v], "I")), x)


def isfinite(x):
    return ewise(lambda v: T.not_(T.app("isnan", [v], "B")) if v is not T.NAN else T.FALSE, x)


def logical_and(a, b): return ewise(lambda x, y: T.and_(T.boolify(x), T.boolify(y)), a, b)
def logical_or(a, b): return ewise(lambda x, y: T.or_(T.boolify(x), T.boolify(y)), a, b)
def logical_not(a): return ewise(lambda x: T.not_(T.boolify(x)), a)


def append(a, b, axis=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0: a = asarray([a.at()])
    if b.ndim == 0: b = asarray([b.at()])
    if a.ndim != 1 or b.ndim != 1: raise Unsupported("append of multi-dimensional arrays")
    return hstack((a, b))


def concatenate(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if any(isinstance(x, Selected) for x in xs): raise Unsupported("concatenation of selected elements")
    if any(x.ndim != xs[0].ndim for x in xs) or xs[0].ndim == 0: raise ValueError("all the input array dimensions must match")
    if axis == -1: axis = xs[0].ndim - 1
    if axis == 1 and xs[0].ndim == 2: return concatenate([x.T for x in xs]).T
    if axis != 0: raise Unsupported("concatenate axis")
    for x in xs[1:]:
        for d, e in zip(x.shape[1:], xs[0].shape[1:]):
            if not same_dim(d, e):
                from . import ctx
                if not ctx.current().decide(T.eq(lift(d), lift(e))): raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs, tot = [], 0
    for x in xs:
        offs.append(tot)
        tot = dim(lift(tot) + lift(x.shape[0]))
    fs = [x.frozen() for x in xs]

    def fn(i, *rest):
        i = lift(i)
        parts = [(f, o, x) for f, o, x in zip(fs, offs, xs) if not is_zero_len(x)]

        def go(k):
            f, o, x = parts[k]
            if k == len(parts) - 1: return f(i - o, *rest)
            c = T.lt(i, lift(o) + lift(x.shape[0]))
            if c is T.TRUE: return f(i - o, *rest)
            if c is T.FALSE: return go(k + 1)
            return T.ite(c, f(i - o, *rest), go(k + 1))
        return go(0)
    return SArr.of((tot,) + tuple(xs[0].shape[1:]), memo_fn(fn))


def is_zero_len(x):
    return isinstance(x.shape[0], int) and x.shape[0] == 0


def hstack(xs):
    xs = [asarray(x) for x in xs]
    xs = [asarray([x.at()]) if x.ndim == 0 else x for x in xs]
    if all(x.ndim == 1 for x in xs): return concatenate(xs)
    return concatenate([x.T for x in xs]).T


def vstack(xs):
    xs = [asarray(x) for x in xs]
    n = None
    for x in xs:
        d = x.shape[-1]
        if n is None: n = d
        elif not same_dim(n, d):
            from . import ctx
            if not ctx.current().decide(T.eq(lift(n), lift(d))):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    rows = [x if x.ndim == 2 else x[None, :] for x in xs]
    return concatenate(rows)


def column_stack(xs):
    xs = [asarray(x) for x in xs]
    cols = [x.T if x.ndim == 2 else x for x in xs]
    return vstack(cols).T


def stack2(xs): return vstack(xs)


def within(k, n, f):
    """f() evaluated for an index 0 <= k < n."""
    from . import ctx
    if not ctx._stack: return f()
    pc = ctx._stack[-1].pc
    m = len(pc)
    pc.extend([T.le(T.const(0), k), T.lt(k, lift(n))])
    try: return f()
    finally: del pc[m:]


def dot(a, b, out=None):
    if hasattr(a, "__pyvc_dot__"): return a.__pyvc_dot__(b)
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if a.ndim > 2 or b.ndim > 2: raise Unsupported("dot of arrays of more than two dimensions")
    fa, fb = a.frozen(), b.frozen()
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not same_dim(n, m):
        from . import ctx
        if not ctx.current().decide(T.eq(lift(n), lift(m))): raise ValueError("shapes not aligned")

    def total(f):
        if isinstance(n, int):
            r = T.real(0)
            for k in range(n): r = r + f(T.const(k))
            return r
        k = T.fresh("s", "I")
        return T.sum_(k, 0, n, within(k, n, lambda: f(k)))
    if a.ndim == 1 and b.ndim == 1: return total(lambda k: fa(k) * fb(k))
    if a.ndim == 2 and b.ndim == 1: return SArr.of((a.shape[0],), memo_fn(lambda i: total(lambda k: fa(i, k) * fb(k))))
    if a.ndim == 1 and b.ndim == 2: return SArr.of((b.shape[1],), memo_fn(lambda j: total(lambda k: fa(k) * fb(k, j))))
    return SArr.of((a.shape[0], b.shape[1]), memo_fn(lambda i, j: total(lambda k: fa(i, k) * fb(k, j))))


def outer(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != 1 or b.ndim != 1: raise Unsupported("outer product of matrices")
    fa, fb = a.frozen(), b.frozen()

    def fn(i, j):
        x, y = fa(i), fb(j)
        if x.sort == "B" and y.sort == "B": return T.and_(x, y)
        return x * y
    return SArr.of((a.shape[0], b.shape[0]), memo_fn(fn))


def diag(a):
    a = asarray(a)
    f = a.frozen()
    if a.ndim == 1: return SArr.of((a.shape[0], a.shape[0]), lambda i, j: T.ite(T.eq(lift(i), lift(j)), f(i), T.real(0)))
    if a.ndim != 2 or not same_dim(a.shape[0], a.shape[1]): raise Unsupported("diagonal of a rectangular array")
    return SArr.of((a.shape[0],), lambda i: f(i, i))


def cumsum(a, axis=None, **k):
    _only(k)
    if axis not in (None, 0): raise Unsupported("cumsum over an axis")
    a = asarray(a)
    if a.ndim != 1: raise Unsupported("cumsum of an array of more dimensions")
    f, n = a.frozen(), a.shape[0]

    def fn(i):
        i = lift(i)
        if i.op == "const" and isinstance(n, int):
            r = T.const(0)
            for k in range(i.args[0] + 1): r = r + f(k)
            return r
        if isinstance(n, int):
            r = None
            for j in range(n - 1, -1, -1):
                r = fn(T.const(j)) if r is None else T.ite(T.eq(i, T.const(j)), fn(T.const(j)), r)
            return r
        k = T.fresh("c", "I")
        return T.sum_(k, 0, i + 1, within(k, n, lambda: f(k)))
    return SArr.of((n,), memo_fn(fn))


def nsum(a, axis=None, **kw):
    _only(kw)
    if isinstance(a, Selected): return sel_sum(a)
    a = asarray(a)
    if a.ndim == 0: return a.at()
    if is_bool(a): return _over_axis(a, axis, count_true)
    if a.ndim == 1:
        if axis not in (None, 0, -1): raise ValueError("axis out of bounds")
        f, n = a.frozen(), a.shape[0]
        if isinstance(n, int):
            r = T.const(0)
            for k in range(n): r = r + f(k)
            return r
        k = T.fresh("s", "I")
        return T.sum_(k, 0, n, within(k, n, lambda: f(k)))
    if axis is None: return nsum(ewise_rows(a))
    return _over_axis(a, axis, nsum)


def ewise_rows(a):
    """The sums of the rows of an array of two or more dimensions."""
    f = a.frozen()
    return SArr.of((a.shape[0],), memo_fn(lambda i: nsum(SArr.of(a.shape[1:], lambda *r: f(i, *r)))))


def sel_sum(a):
    if not a.whole() or a.base.ndim != 1: raise Unsupported("sum of selected rows")
    m, f = a.where.mask.frozen(), a.base.frozen()
    k = T.fresh("s", "I")
    return T.sum_(k, 0, a.base.shape[0], T.ite(m(k), f(k), T.real(0)))


def sel_count(a):
    m = a.where.mask.frozen()
    j = T.fresh("s", "I")
    return T.sum_(j, 0, a.base.shape[0], T.ite(m(j), T.real(1), T.real(0)))


def std(a, axis=None, **k):
    _only(k)
    if not isinstance(a, Selected): raise Unsupported("numpy.std")
    m, n = mean(a), sel_count(a)
    d = Selected(ewise(lambda x: (x - m) * (x - m), a.base), a.where, a.ax)
    return T.ite(T.eq(n, T.real(0)), nan, T.fn("sqrt", sel_sum(d) / n))


def _extreme(name, a):
    a = asarray(a)
    f, n = a.frozen(), a.shape[0]
    if a.ndim != 1: raise Unsupported(name)
    if isinstance(n, int):
        r = f(0)
        for k in range(1, n):
            x = f(k)
            r = T.ite(T.lt(x, r) if name == "min" else T.lt(r, x), x, r)
        return r
    # defined by its contract: an attained bound.  The value is the same for equal arrays (canonical body).
    k = T.fresh("s", "I")
    v = lift(f(k))
    s = T.sum_(k, 0, n, T.app("elt", [T.toreal(v)]))
    return T.app("i" + name + "_of", [s], "I") if v.sort == "I" else T.app(name + "_of", [s])


def amin(a, *x): return _extreme("min", a)
def amax(a, *x): return _extreme("max", a)


def where(c, *ab):
    if ab: return ewise(lambda c, a, b: T.ite(T.boolify(c), a, b), c, *ab)
    c = asarray(c)
    idx = concrete_mask(c) if c.ndim == 1 else None
    if idx is not None: return (_from_seq([t[0] for t in idx]) if idx else zeros(0, dtype="int"),)
    return (Where(c),)


def array_equal(a, b, **k):
    _only(k)
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim: return False
    same = T.and_(*[T.eq(lift(x), lift(y)) for x, y in zip(a.shape, b.shape)])
    if same is T.FALSE: return False
    if same is not T.TRUE: raise Unsupported("comparison of arrays of unlike sizes")
    r = all_(ewise(lambda x, y: T.eq(x, y), a, b))
    return True if r is T.TRUE else False if r is T.FALSE else r


def average(a, weights=None, axis=None, **k):
    _only(k)
    if weights is not None or axis not in (None, 0): raise Unsupported("weighted average")
    return mean(a)


def mean(a, axis=None, **k):
    _only(k)
    if isinstance(a, Selected):
        if not a.whole() or a.base.ndim != 1: raise Unsupported("mean of selected rows")
        n = sel_count(a)
        return T.ite(T.eq(n, T.real(0)), nan, sel_sum(a) / n)
    a = asarray(a)
    if axis not in (None, 0, -1) and a.ndim == 1: raise ValueError("axis out of bounds")
    if axis is not None and a.ndim > 1: return _over_axis(a, axis, mean)
    return nsum(a) / T.toreal(lift(a.size))


def unique(a, **k):
    a = asarray(a)
    if a.ndim != 1 or not isinstance(a.shape[0], int) or k: raise Unsupported("unique")
    v = [a.at(i) for i in range(a.shape[0])]
    if not all(isinstance(x, Term) and x.op == "const" for x in v): raise Unsupported("unique of symbolic values")
    return _from_seq(sorted({x.args[0] for x in v}))


def _indicator(v): return T.ite(T.boolify(v), T.const(1), T.const(0))


def count_true(a):
    """Number of true (non-zero) elements of an array of any shape."""
    a = asarray(a)
    f = a.frozen()
    if a.ndim == 0: return _indicator(a.at())

    def go(pre):
        n = a.shape[len(pre)]
        g = (lambda k: _indicator(f(*(pre + (k,))))) if len(pre) == a.ndim - 1 else lambda k: go(pre + (k,))
        if isinstance(n, int):
            r = T.const(0)
            for k in range(n): r = r + g(T.const(k))
            return r
        k = T.fresh("s", "I")
        return T.sum_(k, 0, n, within(k, n, lambda: g(k)))
    return go(())


def _over_axis(a, axis, f):
    """f of the one-dimensional slices of `a` along `axis`, or of the whole array."""
    a = asarray(a)
    if axis is not None and not -builtins.max(1, a.ndim) <= axis < builtins.max(1, a.ndim): raise ValueError("axis out of bounds")
    if axis is None or a.ndim <= 1: return f(a)
    axis = axis if axis >= 0 else a.ndim + axis
    rest = a.shape[:axis] + a.shape[axis + 1:]
    g = a.frozen()
    return SArr.of(rest, memo_fn(lambda *i: f(SArr.of((a.shape[axis],), lambda k: g(*(i[:axis] + (k,) + i[axis:]))))))


def count_nonzero(a, axis=None, **k):
    _only(k)
    return _over_axis(a, axis, count_true)


def any_(a, axis=None, **k):
    _only(k)
    return _over_axis(a, axis, lambda x: T.not_(T.eq(count_true(x), T.const(0))))


def all_(a, axis=None, **k):
    _only(k)
    return _over_axis(a, axis, lambda x: T.eq(count_true(ewise(lambda v: T.not_(T.boolify(v)), x)), T.const(0)))


def set_printoptions(*a, **k): pass
def get_include(): return ""


class ndarray(object):
    pass


def module():
    m = types.ModuleType("numpy")
    for k, v in list(globals().items()):
        if not k.startswith("_") and k not in ("builtins", "itertools", "types", "T", "module", "NARROW"): setattr(m, k, v)
    def missing(name):
        import numpy
        if name.startswith("__") or not hasattr(numpy, name): raise AttributeError(name)

        def f(*a, **k): raise Unsupported("numpy." + name)
        f.__name__ = name
        return f
    m.__dict__["__getattr__"] = missing
    m.sum, m.any, m.all = nsum, any_, all_
    m.min, m.max = amin, amax
    m.abs = absolute
    m.float = builtins.float
    la = types.ModuleType("numpy.linalg")

    def norm(x, ord=None):
        x = asarray(x)
        if x.ndim != 1: raise Unsupported("norm of a matrix")
        if ord is None or ord == 2: return T.fn("sqrt", nsum(x * x))
        if ord != "inf": raise Unsupported("norm %s" % ord)
        return _extreme("max", absolute(x))
    la.norm = norm

    def cholesky(V):
        V = asarray(V)
        return Opaque("cholesky", V)

    la.cholesky = cholesky

    def solve(A, b): return Opaque("solve", (A, asarray(b)))
    la.solve = solve

    def missing_la(name):
        import numpy.linalg as real
        if name.startswith("__") or not hasattr(real, name): raise AttributeError(name)

        def f(*a, **k): raise Unsupported("numpy.linalg." + name)
        f.__name__ = name
        return f
    la.__dict__["__getattr__"] = missing_la
    m.linalg = la
    m.ndarray = SArr
    m.nan = nan
    return m


class Opaque(object):
    def __init__(self, what, arg): self.what, self.arg = what, arg
