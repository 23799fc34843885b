"""Symbolic arrays: shape of terms, contents as functions of symbolic indices; numpy view semantics for basic slices."""
import builtins
from . import terms as T
from .terms import Term, Unsupported, lift


def dim(x):
    """Normalise a dimension/offset: int when constant, Term otherwise."""
    if isinstance(x, Term):
        if x.op == "const": return int(x.args[0])
        return x
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    import numpy
    if isinstance(x, numpy.integer): return int(x)
    if isinstance(x, float) and x == int(x): return int(x)
    raise Unsupported("dimension of type %s" % type(x).__name__)


def elem(v):
    """An element value: Term when numeric, any Python object otherwise."""
    if T.liftable(v): return lift(v)
    if isinstance(v, str) and hasattr(v, "__pyvc_number__"): return lift(v.__pyvc_number__())      # (text of a number)
    return v


class Store(object):
    serial = [0]

    def __init__(self, shape, fn, obj=False):
        self.shape, self.fn, self.obj = tuple(shape), fn, obj
        Store.serial[0] += 1
        self.number = Store.serial[0]
        self.kind = None            # "i": integer array
        self.locked = False         # a reshaped array: in numpy possibly a view of another one, here a snapshot
        self.watched = ()           # snapshots taken of this one


def prove_now(c):
    from . import ctx
    if c is T.TRUE: return True
    return ctx.current().prover.implied(ctx.current().pc, c) is True


def same_dim(a, b):
    a, b = lift(a), lift(b)
    if a is b: return True
    if a.op == "const" and b.op == "const": return a.args[0] == b.args[0]
    return prove_now(T.eq(a, b))


class SArr(object):
    """view: list of per-store-dimension entries ('f', term) fixed, or ('v', axis, offset, step)."""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, store, view=None, shape=None):
        self.store = store
        if view is None:
            view = [("v", i, 0, 1) for i in range(len(store.shape))]
            shape = store.shape
        self.view, self.shape = view, tuple(shape)

    # construction -------------------------------------------------------------------------------------------------
    @staticmethod
    def of(shape, fn, obj=False):
        return SArr(Store([dim(s) for s in shape], fn, obj))

    @property
    def ndim(self): return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape: r = r * s
        return r

    dtype = None

    # reading ------------------------------------------------------------------------------------------------------
    def at(self, *idx):
        s = []
        for e in self.view:
            if e[0] == "f": s.append(e[1])
            else: s.append(lift(e[2]) + (lift(idx[e[1]]) if e[3] == 1 else lift(idx[e[1]]) * e[3]))
        return self.store.fn(*[lift(x) for x in s])

    def frozen(self):
        """Contents at this moment as a pure function of the view's indices."""
        fn, view = self.store.fn, list(self.view)

        def f(*idx):
            s = []
            for e in view:
                if e[0] == "f": s.append(lift(e[1]))
                else: s.append(lift(e[2]) + (lift(idx[e[1]]) if e[3] == 1 else lift(idx[e[1]]) * e[3]))
            return fn(*s)
        return f

    def copy(self, *a, **k):
        r = SArr.of(self.shape, self.frozen(), self.store.obj)
        r.store.kind = self.store.kind
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, int): return d
        return d.__index__()

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over an array of symbolic length")
        for i in range(n): yield self[i]

    def __bool__(self):
        if self.ndim == 0: return bool(self.at())
        raise ValueError("truth value of an array")

    # indexing -----------------------------------------------------------------------------------------------------
    def _norm(self, key):
        if not isinstance(key, tuple): key = (key,)
        key = list(key)
        if any(k is Ellipsis for k in key):
            i = [n for n, k in enumerate(key) if k is Ellipsis][0]
            fill = self.ndim - (len([k for k in key if k is not None]) - 1)
            key[i:i + 1] = [slice(None)] * fill
        used = sum(k.ndim if isinstance(k, SArr) and is_bool(k) else k.mask.ndim if isinstance(k, Where) else 1 for k in key if k is not None)
        if used > self.ndim: raise IndexError("too many indices for array")
        key += [slice(None)] * (self.ndim - used)
        return key

    def _bound(self, x, n, default):
        if x is None: return default
        x = dim(x)
        if isinstance(x, int) and isinstance(n, int):
            return max(0, min(n, x + n if x < 0 else x))
        if isinstance(x, int):
            if x == 0: return 0
            if x < 0:
                y = dim(lift(n) + x)
                if prove_now(T.le(T.const(0), lift(y))): return y
                from . import ctx
                return y if ctx.current().decide(T.le(T.const(0), lift(y))) else 0
        # numpy clips; the verified subset requires the bound to be within the array (proved here)
        if same_dim(x, n): return n
        if not prove_now(T.and_(T.le(T.const(0), lift(x)), T.le(lift(x), lift(n)))):
            from . import ctx
            c = ctx.current()
            if c.decide(T.and_(T.le(T.const(0), lift(x)), T.le(lift(x), lift(n)))): return x
            c.notes.add("slice bound possibly outside array")
            # numpy semantics for non-negative out-of-range bound: clip
            if c.decide(T.lt(lift(x), T.const(0))): 
                y = dim(lift(x) + lift(n))
                return dim(T.ite(T.lt(lift(y), T.const(0)), T.const(0), lift(y)))
            return n
        return x

    def _index(self, x, n):
        x = dim(x)
        if isinstance(x, int):
            if x < 0: x = dim(lift(n) + x)
            if isinstance(x, int) and isinstance(n, int) and not 0 <= x < n: raise IndexError("index out of range")
            if not isinstance(x, int):
                from . import ctx
                if not ctx.current().decide(T.le(T.const(0), lift(x))): raise IndexError("index out of range")
            elif not isinstance(n, int):
                from . import ctx
                if not ctx.current().decide(T.lt(lift(x), lift(n))): raise IndexError("index out of range")
            return x
        from . import ctx
        c = ctx.current()
        if not c.decide(T.and_(T.le(T.const(0), x), T.lt(x, lift(n)))):
            if c.decide(T.and_(T.lt(x, T.const(0)), T.le(T.sub(T.const(0), lift(n)), x))): return dim(lift(n) + x)
            raise IndexError("index out of range")
        return x

    def _subview(self, key):
        """Basic indexing -> (view, shape) or None when fancy."""
        newaxes, view, shape = [], [None] * len(self.view), []
        axmap, ax, kk = {}, 0, 0
        for k in key:
            if k is None:
                shape.append(1)
                ax += 1
                continue
            n = self.shape[kk]
            if isinstance(k, slice):
                step = 1 if k.step is None else k.step
                if step == -1 and k.start is None and k.stop is None:
                    axmap[kk] = ("v", ax, dim(lift(n) - 1), -1)
                    shape.append(n)
                elif not isinstance(step, int) or step < 1: raise Unsupported("strided slice")
                else:
                    a = self._bound(k.start, n, 0)
                    b = self._bound(k.stop, n, n)
                    ln = dim(lift(b) - lift(a))
                    if isinstance(ln, int): ln = max(0, ln)
                    elif not prove_now(T.le(T.const(0), lift(ln))): ln = dim(T.ite(T.le(T.const(0), lift(ln)), ln, T.const(0)))
                    if step != 1: ln = -(-ln // step) if isinstance(ln, int) else dim(T.idiv(lift(ln) + (step - 1), T.const(step)))
                    axmap[kk] = ("v", ax, a, step)
                    shape.append(ln)
                ax += 1
            elif isinstance(k, (int, Term)) or hasattr(k, "__index__") and not isinstance(k, (SArr, list)):
                if isinstance(k, Term) and k.sort == "B": return None
                axmap[kk] = ("f", self._index(k, n))
            else: return None
            kk += 1
        for i, e in enumerate(self.view):
            if e[0] == "f": view[i] = e
            else:
                m = axmap[e[1]]
                if m[0] == "f": view[i] = ("f", dim(lift(e[2]) + lift(m[1]) * e[3]))
                else: view[i] = ("v", m[1], dim(lift(e[2]) + lift(m[2]) * e[3]), e[3] * m[3])
        return view, shape

    def __getitem__(self, key):
        key = self._norm(key)
        b = self._subview(key)
        if b is not None:
            view, shape = b
            if not shape:
                r = SArr(self.store, view, ()).at()
                return r.args[0] if isinstance(r, Term) and r.op == "const" and r.sort == "I" and isinstance(r.args[0], int) else r
            return SArr(self.store, view, shape)
        return self._fancy_get(key)

    def _fancy_get(self, key):
        sel = [(i, k) for i, k in enumerate(key) if not isinstance(k, slice)]
        if len(sel) == 1:
            ax, k = sel[0]
            if isinstance(k, tuple) and len(k) == 1: k = k[0]
            from .npmodel import asarray
            g = k if isinstance(k, (SArr, Where)) else asarray(k)
            if isinstance(g, Where):
                if g.mask.ndim != 1 or self.ndim != 1: raise Unsupported("gather by condition")
                g = g.mask
            if g.ndim == 1 and not is_bool(g):
                base = self[tuple(s if i != ax else slice(None) for i, s in enumerate(key))]
                f, gf = base.frozen(), g.frozen()
                shape = list(base.shape)
                n = shape[ax]
                shape[ax] = g.shape[0]

                nonneg = self._inside(gf, g.shape[0], n)

                def rd(*idx):
                    j = gf(idx[ax])
                    if isinstance(j, Term) and j.op == "const":
                        if j.args[0] < 0: j = lift(n) + j
                    elif not nonneg: j = T.ite(T.lt(lift(j), T.const(0)), lift(n) + j, j)
                    return f(*[j if a == ax else x for a, x in enumerate(idx)])
                return SArr.of(shape, rd, self.store.obj)
            if is_bool(g): self._mask_fits(g, self.shape if g.ndim == self.ndim else self.shape[ax:])
            idx = concrete_mask(g)
            if idx is not None:
                f = self.frozen()
                if g.ndim == self.ndim:
                    return SArr.of((len(idx),), memo_fn(lambda i: pick([lambda t=t: f(*t) for t in idx], i)), self.store.obj)
                if g.ndim == 1:
                    base = self[tuple(s if i != ax else slice(None) for i, s in enumerate(key))]
                    f, shape = base.frozen(), list(base.shape)
                    axis = len([1 for q in key[:ax] if isinstance(q, slice)])
                    shape[axis] = len(idx)
                    return SArr.of(shape, memo_fn(lambda *i: pick([lambda t=t: f(*[t[0] if a == axis else x for a, x in enumerate(i)]) for t in idx], i[axis])), self.store.obj)
            if g.ndim == 1:
                from . import ctx
                listed = getattr(ctx.current(), "positions", None)                # (a contract enumerates what masks select)
                if listed is not None and is_bool(g): return self._fancy_get(tuple(s if i != ax else listed(g) for i, s in enumerate(key)))
                return Selected(self, Where(g), ax)
            if g.ndim > 1 and is_bool(g): return Selected(self, Where(g), None)
        raise Unsupported("fancy indexing")

    def __setitem__(self, key, val):
        key = self._norm(key)
        b = self._subview(key)
        if b is not None:
            view, shape = b
            target = SArr(self.store, view, shape)
            target._assign(val)
            return
        sel = [(i, k) for i, k in enumerate(key) if not isinstance(k, slice)]
        if len(sel) == 1:
            ax, k = sel[0]
            from .npmodel import asarray
            if isinstance(k, tuple) and len(k) == 1: k = k[0]
            g = k.mask if isinstance(k, Where) else k if isinstance(k, SArr) else asarray(k)
            if is_bool(g): self._mask_fits(g, self.shape if g.ndim == self.ndim else self.shape[ax:])
            if is_bool(g) and g.ndim == self.ndim and (isinstance(val, Selected) or g.ndim > 1):
                if not all(same_dim(x, y) for x, y in zip(g.shape, self.shape)): raise Unsupported("masked assignment with a mask of another shape")
                gf, old = g.frozen(), self.frozen()
                if isinstance(val, Selected):
                    if not val.whole() or not val.like(Selected(self, Where(g), None)): raise Unsupported("assignment of elements selected by another condition")
                    vf = val.base.frozen()
                elif isinstance(val, SArr) and val.ndim > 0: raise Unsupported("masked assignment of an array")
                else: vf = lambda *i, v=elem(val): v
                self._assign(SArr.of(self.shape, memo_fn(lambda *i: T.ite(gf(*i), vf(*i), old(*i)))))
                return
            if is_bool(g) and g.ndim == 1:
                base = self[tuple(s if i != ax else slice(None) for i, s in enumerate(key))]
                gf = g.frozen()
                old = base.frozen()
                if isinstance(val, SArr) and val.ndim > 0: raise Unsupported("masked assignment of an array")
                v = elem(val)
                base._assign(SArr.of(base.shape, lambda *i: T.ite(gf(i[ax]), v, old(*i))))
                return
            if g.ndim == 1 and isinstance(g.shape[0], int):
                gi = [g.at(j) for j in range(g.shape[0])]
                if isinstance(val, (list, tuple)): val = asarray(val)
                v = val.copy() if isinstance(val, SArr) else None
                for j, ix in enumerate(gi):
                    kk = list(key)
                    kk[ax] = ix
                    if v is None or v.ndim == 0: vv = val
                    else:
                        vk = [slice(None)] * v.ndim
                        # the fancy axis keeps its position among the target's axes
                        axpos = len([1 for q in key[:ax] if isinstance(q, slice)])
                        off = (len([1 for q in key if isinstance(q, slice)]) + 1) - v.ndim
                        if axpos - off < 0: vv = v
                        else:
                            d = v.shape[axpos - off]
                            if d != 1 and not same_dim(d, len(gi)): raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
                            vk[axpos - off] = 0 if d == 1 and len(gi) != 1 else j
                            vv = v[tuple(vk)]
                    self[tuple(kk)] = vv
                return
            if g.ndim == 1 and self.ndim == 1 and T.liftable(val):
                # scatter of one value: an element changes when some position of the index array names it
                gf, m, n = g.frozen(), lift(g.shape[0]), self.shape[0]
                if not self._inside(gf, g.shape[0], n): raise Unsupported("negative positions in an index array")
                from .npmodel import within
                old, v = self.frozen(), elem(val)

                def hit(i):
                    k = T.fresh("s", "I")
                    return T.not_(T.eq(T.sum_(k, 0, m, within(k, m, lambda: T.ite(T.eq(gf(k), i), T.const(1), T.const(0)))), T.const(0)))
                self._assign(SArr.of(self.shape, memo_fn(lambda i: T.ite(hit(lift(i)), v, old(i)))))
                return
        raise Unsupported("fancy assignment")

    def _inside(self, gf, m, n):
        """Every position of the index array lies within an axis of length n (proved).  Returns: none is negative."""
        if isinstance(m, int):
            sure = True
            for x in range(m):
                j = gf(T.const(x))
                if T.is_const(j) and isinstance(n, int) and not -n <= j.args[0] < n: raise IndexError("index out of range")
                if prove_now(T.and_(T.le(T.const(0), j), T.lt(j, lift(n)))): continue
                sure = False
                if not prove_now(T.and_(T.le(T.sub(T.const(0), lift(n)), j), T.lt(j, lift(n)))): raise Unsupported("index array possibly outside the array")
            return sure
        from . import ctx
        c = ctx.current()
        k = T.fresh("k", "I")
        h = c.pc + [T.le(T.const(0), k), T.lt(k, lift(m))]
        j = lift(gf(k))
        if c.prover.prove(h, T.and_(T.le(T.const(0), j), T.lt(j, lift(n))))[0] != "valid": raise Unsupported("index array possibly outside the array")
        return True

    def _mask_fits(self, g, axes):
        """A mask has the lengths of the axes it selects from (numpy raises an error otherwise)."""
        for m, n in zip(g.shape, axes):
            if not same_dim(m, n):
                from . import ctx
                if not ctx.current().decide(T.eq(lift(m), lift(n))): raise IndexError("boolean index did not match indexed array")

    def _assign(self, val):
        """target[...] = val (broadcast), with the shape agreement demanded by numpy proved."""
        if isinstance(val, (list, tuple)):
            from .npmodel import asarray
            val = asarray(val)
        if not isinstance(val, SArr) and not T.liftable(val) and hasattr(val, "__pyvc_array__"):
            val = val.__pyvc_array__()
        if isinstance(val, SArr):
            vf = val.frozen()
            if val.ndim > self.ndim:
                lead = val.ndim - self.ndim
                if all(isinstance(s, int) and s == 1 for s in val.shape[:lead]):
                    g = vf
                    vf = lambda *i: g(*([0] * lead + list(i)))
                    vshape = val.shape[lead:]
                else: raise ValueError("could not broadcast input array")
            else: vshape = val.shape
            off = self.ndim - len(vshape)
            stretch = []
            for i, s in enumerate(vshape):
                d = self.shape[off + i]
                if isinstance(s, int) and s == 1 and not (isinstance(d, int) and d == 1):
                    stretch.append(True)
                    continue
                stretch.append(False)
                if not same_dim(s, d):
                    from . import ctx
                    if not ctx.current().decide(T.eq(lift(s), lift(d))):
                        if ctx.current().decide(T.eq(lift(s), T.const(1))):
                            stretch[-1] = True
                            continue
                        raise ValueError("could not broadcast input array from shape %s into %s" % (vshape, self.shape))
            value = lambda *i: elem(vf(*[0 if st else x for st, x in zip(stretch, i[off:])]))
        else:
            v = elem(val)
            value = lambda *i: v
        from .instrument import record_write
        record_write(self)
        st = self.store
        if st.kind is None and not st.obj: st.kind = probe(st)
        if st.locked or any(w() is not None for w in st.watched): raise Unsupported("assignment to an array that shares its memory with a reshaped one")
        old = st.fn
        view, shape = list(self.view), self.shape

        def fn(*s):
            conds, idx = [], [0] * len(shape)
            for e, x in zip(view, s):
                x = lift(x)
                if e[0] == "f": conds.append(T.eq(x, lift(e[1])))
                else:
                    k = T.sub(x, lift(e[2])) if e[3] > 0 else T.sub(lift(e[2]), x)
                    if abs(e[3]) != 1:
                        conds.append(T.eq(T.imod(k, T.const(abs(e[3]))), T.const(0)))
                        k = T.idiv(k, T.const(abs(e[3])))
                    n = lift(shape[e[1]])
                    full = e[3] == 1 and is0(e[2]) and n is lift(st.shape[view.index(e)])
                    if not full:
                        conds += [T.le(T.const(0), k), T.lt(k, n)]
                    idx[e[1]] = k
            c = T.and_(*conds)
            if c is T.FALSE: return old(*s)
            nv = value(*idx)
            if st.kind == "i": nv = int_value(nv)
            elif st.kind == "b" and isinstance(nv, Term) and nv.sort != "B": nv = T.boolify(nv)
            elif st.kind == "f" and isinstance(nv, Term) and nv.sort == "B": nv = T.ite(nv, T.real(1), T.real(0))
            if c is T.TRUE: return nv
            ov = old(*s)
            if not isinstance(nv, Term) or not isinstance(ov, Term):
                if nv is ov: return nv
                from . import ctx
                return nv if ctx.current().decide(c) else ov
            return T.ite(c, nv, ov)
        st.fn = memo_fn(fn)

    # arithmetic ----------------------------------------------------------------------------------------------------
    def _bin(self, o, f):
        from .npmodel import ewise
        return ewise(f, self, o)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._bin(o, lambda a, b: b ** a)
    def __neg__(self): return self._bin(-1, lambda a, b: a * b)
    def __abs__(self): return self._bin(0, lambda a, b: abs(a))
    def __pos__(self): return self
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None: return False
        return self._bin(o, lambda a, b: a == b)
    def __ne__(self, o):
        if o is None: return True
        return self._bin(o, lambda a, b: a != b)
    def __and__(self, o): return self._bin(o, lambda a, b: T.and_(T.boolify(a), T.boolify(b)))
    def __or__(self, o): return self._bin(o, lambda a, b: T.or_(T.boolify(a), T.boolify(b)))
    def __invert__(self): return self._bin(0, lambda a, b: T.not_(T.boolify(a)))
    __hash__ = object.__hash__

    def _iop(self, o, f):
        r = self._bin(o, f)
        self._assign(r)
        return self

    def __iadd__(self, o): return self._iop(o, lambda a, b: a + b)
    def __isub__(self, o): return self._iop(o, lambda a, b: a - b)
    def __imul__(self, o): return self._iop(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._iop(o, lambda a, b: a / b)
    def __ifloordiv__(self, o): return self._iop(o, lambda a, b: a // b)
    def __imod__(self, o): return self._iop(o, lambda a, b: a % b)
    def __ipow__(self, o): return self._iop(o, lambda a, b: a ** b)
    def __iand__(self, o): return self._iop(o, lambda a, b: T.and_(T.boolify(a), T.boolify(b)))
    def __ior__(self, o): return self._iop(o, lambda a, b: T.or_(T.boolify(a), T.boolify(b)))
    def __ixor__(self, o): raise Unsupported("exclusive or")
    __xor__ = __rxor__ = __imatmul__ = __ixor__

    # methods ---------------------------------------------------------------------------------------------------------
    @property
    def T(self):
        n = self.ndim
        return SArr(self.store, [e if e[0] == "f" else ("v", n - 1 - e[1], e[2], e[3]) for e in self.view], self.shape[::-1])

    def transpose(self, *axes):
        if axes: raise Unsupported("transpose with axes")
        return self.T

    def _snapshot(self, r):
        """`r`: the contents of this array in another shape.  numpy may return a view: neither may change from here on."""
        import weakref
        r.store.kind = self.store.kind
        r.store.locked = True
        self.store.watched = tuple(w for w in self.store.watched if w() is not None) + (weakref.ref(r.store),)
        return r

    def astype(self, dtype, *a, **k):
        from .npmodel import _cast
        r = _cast(self, dtype)
        return r.copy() if r is self else r

    def dot(self, o):
        from .npmodel import dot
        return dot(self, o)

    def tolist(self): return [self[i] for i in range(len(self))]

    def flatten(self, order="C"):
        if self.ndim == 1: return self.copy()
        if order != "C" or not all(isinstance(n, int) for n in self.shape[1:]): raise Unsupported("flatten")
        f, m = self.frozen(), self.shape[1:]
        total = self.shape[0]
        for n in m: total = total * n

        def at(k):
            idx, k = [], lift(k)
            for n in reversed(m):
                if n == 1:
                    idx.append(T.const(0))
                    continue
                idx.append(T.imod(k, T.const(n)))
                k = T.idiv(k, T.const(n))
            return f(k, *reversed(idx))
        return SArr.of((dim(total),), memo_fn(at), self.store.obj)

    def ravel(self, order="C"):
        if self.ndim == 1: return SArr(self.store, self.view, self.shape)
        return self._snapshot(self.flatten(order))

    def reshape(self, *shape, **k):
        if k: raise Unsupported("reshape in another order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        shape = [dim(x) for x in shape]
        total = T.const(1)
        for x in self.shape: total = total * lift(x)
        if len([x for x in shape if isinstance(x, int) and x == -1]) > 1: raise ValueError("can only specify one unknown dimension")
        if any(isinstance(x, int) and x == -1 for x in shape):
            j = [isinstance(x, int) and x == -1 for x in shape].index(True)
            others = [x for i, x in enumerate(shape) if i != j and not (isinstance(x, int) and x == 1)]
            left = [x for x in self.shape if not (isinstance(x, int) and x == 1)]
            for x in list(others):
                hit = [y for y in left if same_dim(x, y)]
                if hit:
                    others.remove(x)
                    left = left[:left.index(hit[0])] + left[left.index(hit[0]) + 1:] if all(isinstance(y, int) for y in left) else [y for i, y in enumerate(left) if i != [q is hit[0] for q in left].index(True)]
            r = T.const(1)
            for x in left: r = r * lift(x)
            if others:
                o = T.const(1)
                for x in others: o = o * lift(x)
                if not (T.is_const(o) and T.is_const(r)): raise Unsupported("reshape")
                if o.args[0] == 0 or r.args[0] % o.args[0]: raise ValueError("cannot reshape")
                r = T.const(r.args[0] // o.args[0])
            shape[j] = dim(r)
        want = T.const(1)
        for x in shape: want = want * lift(x)
        if want is not total:
            from . import ctx
            if not (prove_now(T.eq(want, total)) or ctx.current().decide(T.eq(want, total))): raise ValueError("cannot reshape array")
        one = lambda x: isinstance(x, int) and x == 1
        mine = [(i, x) for i, x in enumerate(self.shape) if not one(x)]
        new = [(i, x) for i, x in enumerate(shape) if not one(x)]
        if len(mine) == len(new) and all(same_dim(x[1], y[1]) for x, y in zip(mine, new)):
            to = {i: j for (i, _), (j, _) in zip(mine, new)}
            view = [e if e[0] == "f" else ("f", e[2]) if e[1] not in to else ("v", to[e[1]], e[2], e[3]) for e in self.view]
            return SArr(self.store, view, shape)
        if self.ndim == 1 and len(shape) == 2:
            f = self.frozen()
            n = shape[1]
            return self._snapshot(SArr.of(shape, memo_fn(lambda i, j: f(lift(i) * n + j)), self.store.obj))
        if all(isinstance(x, int) for x in list(self.shape) + shape):
            import itertools
            f = self.frozen()
            cells = [(lambda t=t: f(*[T.const(x) for x in t])) for t in itertools.product(*[range(x) for x in self.shape])]

            def at(*i):
                k = T.const(0)
                for x, d in zip(i, shape): k = k * d + lift(x)
                return pick(cells, k)
            return self._snapshot(SArr.of(shape, memo_fn(at), self.store.obj))
        raise Unsupported("reshape")

    def fill(self, v): self[...] = v

    def clip(self, lo=None, hi=None, out=None):
        from .npmodel import clip
        return clip(self, lo, hi, out)

    def min(self, *a):
        if a and a != (None,): raise Unsupported("min along an axis")
        from .npmodel import amin
        return amin(self)

    def max(self, *a):
        if a and a != (None,): raise Unsupported("max along an axis")
        from .npmodel import amax
        return amax(self)

    def any(self, axis=None, **k):
        from . import npmodel
        return npmodel.any_(self, axis, **k)

    def all(self, axis=None, **k):
        from . import npmodel
        return npmodel.all_(self, axis, **k)

    def sum(self, *a, **k):
        from .npmodel import nsum
        return nsum(self, *a, **k)

    def mean(self, *a, **k):
        from .npmodel import mean
        return mean(self, *a, **k)

    def __getattr__(self, name):
        import numpy
        if name.startswith("__") or not hasattr(numpy.ndarray, name): raise AttributeError(name)
        raise Unsupported("ndarray." + name)

    def __repr__(self):
        return "<SArr shape=%s>" % (self.shape,)


class Where(object):
    """numpy.where(mask)[0]: the positions of the true elements of a one-dimensional mask (number and membership)."""

    def __init__(self, mask): self.mask = mask

    def __symlen__(self):
        from .npmodel import count_true
        if self.mask.ndim != 1: raise T.Unsupported("where of a multi-dimensional array")
        return dim(count_true(self.mask))

    @property
    def size(self): return self.__symlen__()

    @property
    def shape(self): return (self.__symlen__(),)

    def __len__(self):
        n = self.__symlen__()
        if not isinstance(n, int): raise T.Unsupported("len() of selected positions")
        return n

    def _no(self, *a): raise Unsupported("arithmetic on selected positions")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = __floordiv__ = __mod__ = __and__ = __or__ = __getitem__ = __iter__ = _no


class Selected(object):
    """a[mask]: the selected elements, usable in order-insensitive reductions only."""

    def __init__(self, base, where, ax):
        self.base, self.where, self.ax = base.copy(), Where(where.mask.copy()), ax

    def __symlen__(self): return self.size

    def whole(self): return self.base.ndim == self.where.mask.ndim

    def like(self, o):
        """Are both selected by the same condition?"""
        a, b = self.where.mask, o.where.mask
        if a.ndim != b.ndim or not all(same_dim(x, y) for x, y in zip(a.shape, b.shape)): return False
        i = [T.sym("like!%d" % q, "I") for q in range(a.ndim)]
        return lift(a.at(*i)) is lift(b.at(*i))

    @property
    def size(self):
        from . import npmodel
        return npmodel.count_true(self.where.mask)

    def __getattr__(self, name):
        import numpy
        if name.startswith("__") or not hasattr(numpy.ndarray, name): raise AttributeError(name)
        raise Unsupported("%s of selected elements" % name)

    def __getitem__(self, k): raise Unsupported("selection from selected elements")
    def __setitem__(self, k, v): raise Unsupported("assignment to selected elements")

    def mean(self, **k):
        from . import npmodel
        return npmodel.mean(self, **k)

    def std(self, **k):
        from . import npmodel
        return npmodel.std(self, **k)

    def sum(self, **k):
        from . import npmodel
        return npmodel.nsum(self, **k)

    def _e(self, f, *a):
        from . import npmodel
        return npmodel.ewise(f, self, *a)
    def __add__(self, o): return self._e(lambda a, b: a + b, o)
    def __radd__(self, o): return self._e(lambda a, b: b + a, o)
    def __sub__(self, o): return self._e(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._e(lambda a, b: b - a, o)
    def __mul__(self, o): return self._e(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._e(lambda a, b: b * a, o)
    def __truediv__(self, o): return self._e(lambda a, b: a / b, o)
    def __rtruediv__(self, o): return self._e(lambda a, b: b / a, o)
    def __pow__(self, o): return self._e(lambda a, b: a ** b, o)
    def __neg__(self): return self._e(lambda a: -a)
    def _no(self, *a): raise Unsupported("comparison of selected elements")
    __lt__ = __le__ = __gt__ = __ge__ = __floordiv__ = __mod__ = __rpow__ = __abs__ = __and__ = __or__ = __invert__ = __iter__ = __matmul__ = __bool__ = _no
    __iadd__ = __isub__ = __imul__ = __itruediv__ = _no


def probe(st):
    """Element type of an array's contents: "i" (integers), "b" or "f".  An integer sort anywhere it is looked for counts as
    integers: storing a non-integer is then refused, never modelled as if it were kept."""
    v = None
    try: v = st.fn(*[T.const(0) if isinstance(n, int) else T.fresh("i", "I") for n in st.shape])
    except Unsupported: pass
    except Exception: pass
    return {"I": "i", "B": "b"}.get(v.sort, "f") if isinstance(v, Term) else None


def int_value(v):
    """The value stored in an integer array: integers as they are; truncation of a real is not modelled."""
    if not isinstance(v, Term):
        if isinstance(v, float) and v != int(v): raise Unsupported("truncation of a real number")
        return v
    if v.sort in ("I", "B"): return v
    if T.is_integral(v): return T.to_int(v)
    if v is T.sym("out_of_bounds", "R"): return T.sym("out_of_bounds_int", "I")
    raise Unsupported("non-integer stored in an integer array")


def is0(x):
    return (isinstance(x, int) and x == 0) or (isinstance(x, Term) and T.is_const(x, 0))


def concrete_mask(g):
    """Indices of the true elements of a boolean array of constant shape and contents (row-major), or None."""
    import itertools
    if not is_bool(g) or not all(isinstance(n, int) for n in g.shape): return None
    out = []
    for t in itertools.product(*[range(n) for n in g.shape]):
        v = lift(g.at(*t))
        if v is T.TRUE: out.append(tuple(T.const(x) for x in t))
        elif v is not T.FALSE: return None
    return out


def pick(fs, i):
    i = lift(i)
    if i.op == "const":
        if not 0 <= i.args[0] < len(fs): return T.sym("out_of_bounds", "R")
        return fs[int(i.args[0])]()
    if not fs: return T.sym("out_of_bounds", "R")
    r = fs[-1]()
    for k in range(len(fs) - 2, -1, -1): r = T.ite(T.eq(i, T.const(k)), fs[k](), r)
    return r


def memo_fn(fn):
    memo = {}

    def g(*s):
        k = tuple(lift(x) for x in s)
        r = memo.get(k)
        if r is None:
            r = fn(*k)
            if isinstance(r, Term): memo[k] = r
        return r
    return g


def is_bool(a):
    if not isinstance(a, SArr): return False
    try:
        v = a.frozen()(*[T.fresh("i", "I") for _ in a.shape])
    except Exception:
        return False
    return isinstance(v, Term) and v.sort == "B"
