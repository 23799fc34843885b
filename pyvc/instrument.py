"""Rewriting of comprehensions (and later loops) of the translated source so that symbolic-length sequences are handled by
a generic-element rule.  Concrete sequences behave exactly as before."""
import ast, copy, gc, sys
from . import terms as T
from .arr import SArr, Store, dim, memo_fn, same_dim
from .terms import lift


class SymSeq(object):
    """A Python list of symbolic length: element i is get(i)."""

    def __init__(self, n, get): self.n, self.get = n, get

    def __symlen__(self): return self.n

    def __getitem__(self, i):
        if isinstance(i, slice): raise T.Unsupported("slice of a symbolic list")
        return self.get(lift(i))

    def __iter__(self):
        from . import ctx
        k = self.n if isinstance(self.n, int) else ctx.current().unique_int(lift(self.n))
        if k is None: raise T.Unsupported("iteration over a symbolic list")
        for i in range(k): yield self.get(T.const(i))

    def __pyvc_array__(self):
        probe = self.get(T.fresh("probe", "I"))
        if isinstance(probe, T.Term): return SArr.of((self.n,), memo_fn(lambda i: self.get(i)))
        if isinstance(probe, SArr):
            return SArr.of((self.n,) + probe.shape, memo_fn(lambda i, *r: self.get(i).at(*r)))
        raise T.Unsupported("array of a symbolic list of objects")


def sym_len(it):
    """Length when `it` is a symbolic-length sequence, else None."""
    from .loader import SymRange
    if isinstance(it, SArr): return None if it.ndim == 0 or isinstance(it.shape[0], int) else it.shape[0]
    if isinstance(it, SymRange): return it.__symlen__()
    if isinstance(it, SymSeq): return None if isinstance(it.n, int) else it.n
    return None


def sym_elem(it, k):
    from .loader import SymRange
    if isinstance(it, SymRange): return k + it.lo
    if isinstance(it, SymSeq): return it.get(k)
    return it[k]


def seq_of(n, k, paths):
    """SymSeq whose element k is the value of the path taken: paths = [(condition, value)]."""
    vals = [v for _, v in paths]
    if all(T.liftable(v) for v in vals):
        v = merge(paths)
        return SymSeq(dim(n), lambda i: T.subst(v, {k: i}))
    if all(isinstance(v, SArr) for v in vals):
        sh = vals[0].shape
        for v in vals:
            if len(v.shape) != len(sh) or any(k in T.syms(lift(s)) for s in v.shape) or not all(same_dim(x, y) for x, y in zip(v.shape, sh)):
                raise T.Unsupported("ragged symbolic list")
        fs = [(c, v.frozen()) for c, v in paths]
        return SymSeq(dim(n), lambda i: SArr.of(sh, memo_fn(lambda *r: T.subst(merge([(c, f(*r)) for c, f in fs]), {k: i}))))
    if all(isinstance(v, tuple) for v in vals) and len(set(len(v) for v in vals)) == 1:
        parts = [seq_of(n, k, [(c, v[j]) for c, v in paths]) for j in range(len(vals[0]))]
        return SymSeq(dim(n), lambda i: tuple(p.get(i) for p in parts))
    if all(v is vals[0] for v in vals) and not isinstance(vals[0], (list, dict, set)): return SymSeq(dim(n), lambda i: vals[0])
    raise T.Unsupported("symbolic list of %s" % type(vals[0]).__name__)


def merge(paths):
    r = lift(paths[-1][1])
    for c, v in reversed(paths[:-1]): r = T.ite(c, v, r)
    return r


class Frame(object):
    """The generic element of a loop or comprehension: its own decision trail, and the mutable objects that existed before."""

    def __init__(self, c, n):
        self.c, self.n = c, lift(n)
        self.k = T.fresh("k", "I")
        self.trail, self.pos = [], 0
        self.known = set(map(id, gc.get_objects()))
        self.serial = Store.serial[0]
        self.mark = len(c.pc)
        self.unknown, self.lenient = set(), False      # accumulators of a discovery pass; was one of them branched on?

    def begin(self):
        c = self.c
        self.pos, self.log = 0, []
        c.pc.extend([T.le(T.const(0), self.k), T.lt(self.k, self.n)])
        self.base = len(c.pc)
        c.frames.append(self)

    def end(self):
        """-> condition of the path just executed."""
        c = self.c
        if c.frames[-1] is not self: raise T.Unsupported("unbalanced symbolic loops")
        c.frames.pop()
        conds = list(self.conds)
        del c.pc[self.mark:]
        return T.and_(*conds)

    def decide(self, t):
        c = self.c
        if self.unknown and any(x in self.unknown for x in T.syms(t)):
            self.lenient = True
            return True
        if self.pos < len(self.trail):
            v, _, forced = self.trail[self.pos]
            self.pos += 1
            if not forced: self.note(t if v else T.not_(t))
            return v
        d = c.prover.implied(c.pc, t)
        if d is not None:
            self.trail.append([d, 0, True])
            self.pos += 1
            return d
        if len(self.trail) > 60: raise T.Unsupported("too many branches in a symbolic loop")
        self.trail.append([True, 1, False])
        self.pos += 1
        self.note(t)
        return True

    def note(self, t):
        self.c.pc.append(t)
        self.conds.append(t)

    def paths(self):
        """Generator: once per combination of branch decisions of the body (driven by the caller)."""
        self.trail, self.done, n = [], [], 0
        while True:
            self.conds = []
            self.begin()
            yield self
            self.done.append(self.end())
            n += 1
            while self.trail and self.trail[-1][1] == 0: self.trail.pop()
            if not self.trail: return
            self.trail[-1] = [not self.trail[-1][0], 0, False]
            if n > 64: raise T.Unsupported("too many paths in a symbolic loop")


def guard(base):
    """About to mutate `base` (an object of the translated program, not an array)."""
    from . import ctx
    if not ctx._stack: return
    c = ctx._stack[-1]
    if isinstance(base, (SArr, Poison)) or hasattr(type(base), "__pyvc_mutable__"): return
    for f in c.frames:
        if id(base) in f.known: raise T.Unsupported("a symbolic loop or comprehension changes a %s that exists outside it" % type(base).__name__)
    for g in c.guards: g.check_object(base)


class Poison(object):
    """Value of a name that the loop rule does not know."""

    def __init__(self, what): object.__setattr__(self, "_what", what)

    def _no(self, *a, **k): raise T.Unsupported("value of %r carried through a symbolic loop" % object.__getattribute__(self, "_what"))
    __getattr__ = __bool__ = __iter__ = __call__ = __getitem__ = __setitem__ = __len__ = __index__ = __float__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __ne__ = _no
    __hash__ = object.__hash__
    __neg__ = __pow__ = __contains__ = _no


class ListAcc(object):
    """A list during a symbolic iteration: what it held before plus what this iteration appended."""

    def __init__(self, init, new=()): self.init, self.new = init, tuple(new)

    def plus(self, xs): return ListAcc(self.init, self.new + tuple(xs))

    def __iadd__(self, o):
        if not isinstance(o, (list, tuple)): raise T.Unsupported("extension of a list in a symbolic loop")
        return self.plus(o)

    def _no(self, *a, **k): raise T.Unsupported("a list is read while a symbolic loop fills it")
    __getitem__ = __iter__ = __len__ = __bool__ = __contains__ = __add__ = _no


def append(x, e):
    if isinstance(x, ListAcc): return x.plus([e])
    guard(x)
    x.append(e)
    return x


def preceded(head, sq):
    from .arr import pick
    h = len(head)
    return SymSeq(dim(lift(sq.n) + h), memo_fn(lambda i: pick([(lambda x=x: lift(x)) for x in head], i) if T.lt(i, T.const(h)) is T.TRUE else
                                               T.ite(T.lt(i, T.const(h)), pick([(lambda x=x: lift(x)) for x in head], i), lift(sq.get(i - h)))))


class Guard(object):
    """Frame condition of a loop with a declared invariant: what its body may change is what the declaration lists."""

    def __init__(self, allowed):
        self.serial = Store.serial[0]
        self.known = set(map(id, gc.get_objects()))
        self.stores = set(x.store for x in allowed if isinstance(x, SArr))
        self.objects = set(id(x) for x in allowed if not isinstance(x, SArr))
        self.keep = list(allowed)

    def check_store(self, st):
        if st.number <= self.serial and st not in self.stores: raise T.Unsupported("a loop changes an array its declared invariant does not mention")

    def check_object(self, x):
        if id(x) in self.known and id(x) not in self.objects: raise T.Unsupported("a loop changes a %s its declared invariant does not mention" % type(x).__name__)


class Env(dict):
    """Local variables of the function at the head of a loop."""

    def __missing__(self, k): raise T.Unsupported("the declared invariant mentions %r, which the function does not have" % k)


class Declared(object):
    """Invariant declared (in /verif/contracts) for one loop of the code under verification.

    The loop is cut at its head: `entry` states the invariant for the state before the loop; then an arbitrary state is
    assumed (`havoc`: new values of the changed locals, changed arrays and objects, the invariant assumed) from which one
    path runs the body once and states the invariant again (`preserve`), and the other goes on after the loop."""

    changes = ()

    def entry(self, c, env): pass
    def havoc(self, c, env, k, n): raise NotImplementedError
    def preserve(self, c, env, k, n): pass


def stated(f, *a):
    """Evaluate a declared invariant; when it does not fit the code it was declared for, nothing is decided here.
    An invariant that fails has not been refuted as a property: its obligations are internal to the proof."""
    from . import ctx
    c = ctx.current()
    c.internal += 1
    try: return f(*a)
    except (T.Unsupported, ctx.Infeasible, ctx.CodeError, ctx.PathEnd): raise
    except Exception as e: raise T.Unsupported("declared invariant does not fit the loop: %s: %s" % (type(e).__name__, e))
    finally: c.internal -= 1


class While(object):
    def __init__(self, key, carried, specs):
        self.key, self.carried = key, carried
        self.spec = specs.get(key)
        self.on = self.spec is not None
        self.init, self.new, self.count = {}, None, 0

    def before(self, name, v): self.init[name] = v

    def start(self, loc):
        from . import ctx
        self.c = c = ctx.current()
        if c.frames: raise T.Unsupported("declared invariant inside a symbolic loop")
        stated(self.spec.entry, c, Env(loc))
        self.new, self.allowed = stated(self.spec.havoc, c, Env(loc), None, None)
        self.guard = Guard(self.allowed)
        c.guards.append(self.guard)

    def enter(self, name):
        return self.new.get(name, Poison(name))

    def same(self, name, v):
        return self.new.get(name, v)

    def again(self, loc=None):
        if not self.on: return True
        self.count += 1
        if self.count == 1: return True
        from . import ctx
        self.done()
        stated(self.spec.preserve, self.c, Env(sys._getframe(1).f_locals), None, None)
        raise ctx.PathEnd()

    def done(self):
        if self.on and self.guard in self.c.guards: self.c.guards.remove(self.guard)


class Loop(object):
    def __init__(self, it, carried=(), appended=(), targets=(), key=None, specs=()):
        self.it, self.carried, self.appended, self.targets = it, carried, appended, targets
        n = sym_len(it)
        self.spec = dict(specs).get(key)
        self.declared = None
        if n is not None:
            from . import ctx
            u = ctx.current().unique_int(lift(n)) if not T.is_const(lift(n)) else int(lift(n).args[0])
            if u is not None:
                self.it = [sym_elem(it, T.const(i)) for i in range(u)]
                n = None
        self.n, self.sym = n, n is not None
        if self.spec is not None and not self.sym: raise T.Unsupported("declared invariant of a loop of fixed length")
        self.init, self.final = {}, {}

    def before(self, name, v):
        if self.sym: self.init[name] = v
        return v

    def enter(self, name):
        if self.declared is not None: return self.declared.get(name, Poison(name))
        if name not in self.init: return Poison(name)
        v = self.init[name]
        if isinstance(v, (ListAcc,)): raise T.Unsupported("nested filling of a list")
        if name in self.appended and isinstance(v, (list, SymSeq)): return ListAcc(v)
        if name in self.inv: return self.entering(name)
        if T.liftable(v) and name in self.acc: return self.acc[name]
        return Poison(name)

    def after(self, name):
        return self.final.get(name, Poison(name))

    def __iter__(self):
        if not self.sym:
            for x in self.it: yield x
            return
        from . import ctx
        c = ctx.current()
        if self.spec is not None:
            if c.frames: raise T.Unsupported("declared invariant inside a symbolic loop")
            n = lift(self.n)
            loc = Env(sys._getframe(1).f_locals)
            stated(self.spec.entry, c, loc)
            body = c.decide(T.and_(T.sym("loop!%d" % len(c.trail), "B"), T.lt(T.const(0), n)))
            k = T.fresh("k", "I") if body else n
            if body: c.assume(T.le(T.const(0), k), T.lt(k, n))
            self.declared, allowed = stated(self.spec.havoc, c, loc, k, n)
            if body:
                g = Guard(allowed)
                c.guards.append(g)
                yield sym_elem(self.it, k)
                c.guards.remove(g)
                stated(self.spec.preserve, c, Env(sys._getframe(1).f_locals), k + 1, n)
                raise ctx.PathEnd()
            self.final.update(self.declared)
            return
        fr = self.frame = Frame(c, self.n)
        k, n = fr.k, fr.n
        self.acc = {nm: T.fresh("acc_" + nm, lift(v).sort) for nm, v in self.init.items() if T.liftable(v)}
        self.inv = {}
        for phase in (0, 1):
            written = {}                   # store -> ("at", axis, offset) of the write index, or ("seg", axis, offset, length)
            for attempt in range(4):
                res, again = [], False
                olds = {st: st.fn for st in written}
                for st, w in written.items(): st.fn = only_at(st.fn, w[1], k, w[2]) if w[0] == "at" else hidden(st)
                nobl = len(c.obligations)
                fr.unknown, fr.lenient = (set(self.acc.values()) if phase == 0 else set()), False
                for _ in fr.paths():
                    fr.log = []
                    yield sym_elem(self.it, k)
                    loc = sys._getframe(1).f_locals
                    vals = {nm: loc[nm] for nm in set(self.carried) | set(self.targets) if nm in loc}
                    out = {}
                    for st, fn0, w in fr.log:
                        if st not in written or st not in olds: again = True
                        w0 = written.setdefault(st, w)
                        if phase == 0 and w[0] == "seg":
                            written[st] = w
                            continue
                        if w0[:2] != w[:2] or w0[2] is not w[2] or w0[0] == "seg" and w0[3] is not w[3]: raise T.Unsupported("a symbolic loop writes several places of one array: %s and %s" % ([T.show(lift(x)) for x in w0[1:]], [T.show(lift(x)) for x in w[1:]]))
                    if not again:
                        for st in written:
                            if phase == 1 or written[st][0] == "at": out[st] = self.written_value(st, written[st], k)
                    for st, fn0, w in reversed(fr.log): st.fn = fn0
                    for nm, v in vals.items():
                        a = self.acc.get(nm)
                        if a is not None and T.liftable(v) and lift(v).sort != a.sort and lift(v).sort == "R":
                            self.acc[nm] = T.fresh("acc_" + nm, "R")
                            again = True
                    if phase == 1 and not again: self.inductive(vals)
                    res.append((vals, out))
                conds = fr.done
                for st in olds: st.fn = olds[st]
                if not again: break
                del c.obligations[nobl:]
            else: raise T.Unsupported("the loop rule does not settle")
            if phase == 0 and (fr.lenient or any(w[0] == "seg" for w in written.values())):
                self.candidates(conds, res)
                del c.obligations[nobl:]
                self.acc = {}
                continue
            break
        self.finish(conds, res, written)
        for nm, (init, E, step) in self.inv.items(): self.final[nm] = E(n)

    def deltas(self, conds, res, nm, a, accs):
        """What one iteration adds to the accumulator nm, or None."""
        out = []
        for cd, (vals, _) in zip(conds, res):
            v = vals.get(nm, a)
            if not T.liftable(v): return None
            v = lift(v)
            d = T.sub(T.toreal(v) if a.sort == "R" else v, a) if v.sort in "RI" else None
            if d is None or any(x in accs for x in T.syms(d)) or any(x in accs for x in T.syms(cd)): return None
            out.append((cd, d))
        return merge(out)

    def candidates(self, conds, res):
        """Entering values of the carried numbers as prefix sums: a candidate invariant, checked by inductive()."""
        k = self.frame.k
        accs = set(self.acc.values())
        base = {}
        for nm, a in self.acc.items():
            d = self.deltas(conds, res, nm, a, accs)
            if d is None: continue
            init = lift(self.init[nm])
            if a.sort == "R": init, d = T.toreal(init), T.toreal(d)
            base[nm] = (init, (lambda d, init: lambda m: T.add(init, T.sum_(k, 0, m, d)))(d, init), d)
        self.inv = dict(base)
        for nm, a in self.acc.items():
            if nm in base: continue
            for b in base:          # ends every iteration with the value of the accumulator b
                if not all(nm in vals and T.liftable(vals[nm]) and lift(vals[nm]) is lift(vals.get(b, self.acc[b])) for vals, _ in res): continue
                init, (ib, E, d) = lift(self.init[nm]), base[b]
                if init is ib: self.inv[nm] = base[b]
                else: self.inv[nm] = (init, (lambda init, E: lambda m: T.ite(T.eq(lift(m), T.const(0)), init, E(m)))(init, E), (E, d))
                break

    def entering(self, nm): return self.inv[nm][1](self.frame.k)

    def inductive(self, vals):
        """The value at the end of this path is the entering value of the next iteration."""
        from . import ctx
        c, k = ctx.current(), self.frame.k
        for nm, (init, E, d) in self.inv.items():
            want = T.add(E(k), d) if not isinstance(d, tuple) else T.add(d[0](k), d[1])
            v = vals.get(nm)
            if v is None: v = self.entering(nm)
            if not T.liftable(v) or c.prover.prove(c.pc, T.eq(lift(v), want))[0] != "valid": raise T.Unsupported("the value of %s over a symbolic loop is not the expected prefix sum" % nm)

    def written_value(self, st, w, k):
        r = [T.fresh("r", "I") for _ in st.shape]
        at = list(r)
        at[w[1]] = k + w[2] if w[0] == "at" else lift(w[2]) + r[w[1]]
        v = st.fn(*at)
        if not isinstance(v, T.Term): raise T.Unsupported("a symbolic loop writes objects")
        if w[0] == "seg" and not self.frame.unknown:
            from . import ctx
            c = ctx.current()
            x = r[w[1]]
            v = c.prover.simp(c.pc + [T.le(T.const(0), x), T.lt(x, lift(w[3]))], v)
            if any(t.op == "app" and t.args[0].startswith("hidden!") for t in T.subterms(v)): raise T.Unsupported("a symbolic loop reads what another iteration may have written")
        return (r, v)

    def finish(self, conds, res, written):
        k, n = self.frame.k, self.frame.n
        accs = {a: nm for nm, a in self.acc.items()}
        for cd in conds:
            if any(a in accs for a in T.syms(cd)): raise T.Unsupported("a branch of a symbolic loop depends on what the loop accumulates")
        prefix = {}
        bad = {}
        for nm, a in self.acc.items():
            d = self.deltas(conds, res, nm, a, accs)
            if d is None:
                bad[a] = nm
                continue
            init = lift(self.init[nm])
            if a.sort == "R": init, d = T.toreal(init), T.toreal(d)
            prefix[a] = (lambda d, init: lambda m: T.add(init, T.sum_(k, 0, m, d)))(d, init)
            self.final[nm] = prefix[a](n)
        sub_k = {a: f(k) for a, f in prefix.items()}

        def close(t):
            """Value at iteration k in terms of k alone."""
            if any(a in bad for a in T.syms(t)): raise T.Unsupported("value of %s carried through a symbolic loop" % ", ".join(bad.values()))
            return T.subst(t, sub_k) if sub_k else t
        for st, w in written.items():
            ax, off = w[1:3]
            r = res[0][1][st][0]
            V = close(merge([(cd, T.subst(o[st][1], dict(zip(o[st][0], r)))) for cd, (_, o) in zip(conds, res)]))
            if w[0] == "at": st.fn = memo_fn(mapped(st.fn, ax, off, k, n, r, V))
            else: st.fn = memo_fn(segments(st.fn, ax, lift(off), lift(w[3]), k, n, r, V))
        for nm in set(self.carried) | set(self.targets):
            if nm in self.final: continue
            vs = [vals.get(nm) for vals, _ in res]
            if any(v is None for v in vs): continue
            if nm in self.appended and all(isinstance(v, ListAcc) for v in vs):
                if not all(len(v.new) == 1 for v in vs):
                    if not any(v.new for v in vs): self.final[nm] = self.init[nm]
                    continue
                i0 = self.init[nm]
                if not isinstance(i0, list): continue
                try: sq = seq_of(n, k, [(cd, close(lift(v.new[0])) if T.liftable(v.new[0]) else v.new[0]) for cd, v in zip(conds, vs)])
                except T.Unsupported: continue
                if not i0: self.final[nm] = sq
                elif all(T.liftable(x) for x in i0): self.final[nm] = preceded(i0, sq)
                continue
            if all(T.liftable(v) for v in vs):
                try: v = close(merge([(cd, v) for cd, v in zip(conds, vs)]))
                except T.Unsupported: continue
                from . import ctx
                c = ctx.current()
                if c.prover.implied(c.pc, T.le(T.const(1), n)) is True: self.final[nm] = T.subst(v, {k: n - 1})
            elif all(isinstance(v, SArr) and nm in self.init and v is self.init[nm] for v in vs): self.final[nm] = vs[0]
            elif nm in self.init and all(v is self.init[nm] for v in vs): self.final[nm] = vs[0]


def only_at(fn, ax, k, off):
    def g(*s):
        d = T.sub(lift(s[ax]), lift(k + off))
        if not T.is_const(d, 0): raise T.Unsupported("a symbolic loop reads what another iteration may have written")
        return fn(*s)
    return g


def mapped(old, ax, off, k, n, r, V):
    def g(*s):
        q = T.sub(lift(s[ax]), lift(off))
        m = {k: q}
        for i, x in enumerate(r):
            if i != ax: m[x] = lift(s[i])
        cond = known(T.and_(T.le(T.const(0), q), T.lt(q, n)))
        if cond is T.TRUE: return T.subst(V, m)
        return T.ite(cond, T.subst(V, m), old(*s))
    return g


def known(cond):
    """TRUE when the current path condition implies cond."""
    from . import ctx
    if T.is_const(cond) or not ctx._stack: return cond
    c = ctx._stack[-1]
    return T.TRUE if c.prover.implied(c.pc, cond) is True else cond


def hidden(st):
    """Contents of an array whose pieces the loop is writing: unknown."""
    return lambda *s: T.app("hidden!%d" % st.number, s)


def segments(old, ax, off, length, k, n, r, V):
    """Iteration k wrote [off(k), off(k) + length(k)) along axis ax; consecutive pieces adjoin (proved here)."""
    from . import ctx
    c = ctx.current()
    h = c.pc + [T.le(T.const(0), k), T.lt(k, n)]
    if c.prover.prove(h, T.eq(T.subst(off, {k: k + 1}), off + length))[0] != "valid": raise T.Unsupported("the pieces a symbolic loop writes do not adjoin")
    if c.prover.prove(h, T.le(T.const(0), length))[0] != "valid": raise T.Unsupported("piece of negative length")
    name = "piece!%d" % T.fresh("p", "I").id
    integral = V.sort == "R" and T.is_integral(V)
    Vi = T.to_int(V) if integral else V

    def value(e, q, rest):
        m = {k: e, r[ax]: T.sub(q, T.subst(off, {k: e}))}
        m.update(rest)
        return T.subst(Vi, m)

    def resolve(prover, hyps, args):
        q = args[0]
        rest = {x: y for x, y in zip([x for i, x in enumerate(r) if i != ax], args[1:])}
        sums = [s for s in T.subterms(off) if s.op == "sum"]
        bodies = set(s.args[3] for s in sums)
        cand = [T.const(0)]
        if stride: cand.insert(0, quotient(T.sub(q, first), stride))
        for t in [q] + list(hyps):
            for s in T.subterms(t):
                if s.op == "sum" and s.args[3] in bodies:
                    for e in (s.args[2], s.args[2] - 1):
                        if not any(e is x for x in cand): cand.append(e)
        for e in cand:
            d = T.sub(q, T.subst(off, {k: e}))
            g = T.and_(T.le(T.const(0), e), T.lt(e, n), T.le(T.const(0), d), T.lt(d, T.subst(length, {k: e})))
            if prover.implied(hyps, g) is True: return value(e, q, rest)
        return None
    c.prover.segs[name] = resolve
    step = T.sub(T.subst(off, {k: k + 1}), off)
    stride = step.args[0] if T.is_const(step) and step.args[0] > 0 else None
    first, last = T.subst(off, {k: T.const(0)}), T.subst(off, {k: n})

    def g(*s):
        q = lift(s[ax])
        t = T.app(name, [q] + [lift(x) for i, x in enumerate(s) if i != ax], Vi.sort)
        if integral: t = T.toreal(t)
        cond = known(T.and_(T.le(first, q), T.lt(q, last)))
        return t if cond is T.TRUE else T.ite(cond, t, old(*s))
    return g


def quotient(q, d):
    """A term e with q = d*e + rest, from the addends of q that are multiples of d."""
    e, const = T.const(0), 0
    for a in (q.args if q.op == "add" else [q]):
        m = a.args[0].args[0] if a.op == "mul" and a.args[0].op == "const" else 1
        if a.op == "const": const += a.args[0]
        elif m % d == 0: e = e + (T.mul(T.const(m // d), product_of(a.args[1:])) if a.op == "mul" and m != 1 else a)
    return e + const // d


def product_of(xs):
    r = xs[0]
    for x in xs[1:]: r = T.mul(r, x)
    return r


def record_write(arr, *a):
    """Called by SArr._assign before it changes a store that exists outside the active symbolic loops."""
    from . import ctx
    if not ctx._stack: return
    c = ctx._stack[-1]
    for g in c.guards: g.check_store(arr.store)
    for f in c.frames:
        if arr.store.number > f.serial: continue
        for ax, e in enumerate(arr.view):
            if e[0] == "f" and f.k in T.syms(lift(e[1])):
                off = T.sub(lift(e[1]), f.k)
                if f.k not in T.syms(off):
                    f.log.append((arr.store, arr.store.fn, ("at", ax, off)))
                    break
            if e[0] == "v" and e[3] == 1 and any(x is f.k or x in f.unknown for x in T.syms(lift(e[2]))):
                f.log.append((arr.store, arr.store.fn, ("seg", ax, lift(e[2]), lift(arr.shape[e[1]]))))
                break
        else: raise T.Unsupported("a symbolic loop or comprehension writes an array outside its own element")


def listcomp(it, body):
    n = sym_len(it)
    if n is None: return [body(x) for x in it]
    from . import ctx
    c = ctx.current()
    f = Frame(c, n)
    vals = []
    for _ in f.paths():
        f.log = []
        vals.append(body(sym_elem(it, f.k)))
        if f.log: raise T.Unsupported("a comprehension writes an array")
    return seq_of(lift(n), f.k, list(zip(f.done, vals)))


def quantifier(name, it, body):
    """all(body(x) for x in it) / any(...)."""
    import builtins
    n = sym_len(it)
    if n is None: return getattr(builtins, name)(body(x) for x in it)
    q = listcomp(it, lambda x: T.boolify(lift(body(x))))
    from .npmodel import within
    k = T.fresh("s", "I")
    f = lambda: T.ite(T.not_(q.get(k)) if name == "all" else q.get(k), T.const(1), T.const(0))
    r = T.eq(T.sum_(k, 0, lift(n), within(k, lift(n), f)), T.const(0))
    return r if name == "all" else T.not_(r)


def is_bool_const(x, v, neg):
    """`x is True` and the like, where x may be a symbolic truth value."""
    r = (T.boolify(x) if v else T.not_(T.boolify(x))) if isinstance(x, T.Term) and x.sort == "B" else x is v
    return (T.not_(r) if isinstance(r, T.Term) else not r) if neg else r


MUTATORS = {"append", "extend", "insert", "remove", "pop", "sort", "reverse", "update", "setdefault", "add", "discard", "clear", "popitem"}


class Rewriter(ast.NodeTransformer):
    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) != 1: return node
        g = node.generators[0]
        if g.ifs or g.is_async: return node
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(args=_args([g.target.id]), body=node.elt)
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            inner = ast.Lambda(args=_args([e.id for e in g.target.elts]), body=node.elt)
            lam = ast.Lambda(args=_args(["__t"]), body=ast.Call(func=inner, args=[ast.Starred(ast.Name("__t", ast.Load()), ast.Load())], keywords=[]))
        else: return node
        return ast.copy_location(ast.Call(func=ast.Name("__pyvc_listcomp__", ast.Load()), args=[g.iter, lam], keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("all", "any") and len(node.args) == 1 and not node.keywords and isinstance(node.args[0], ast.GeneratorExp):
            ge = node.args[0]
            g = ge.generators[0]
            if len(ge.generators) == 1 and not g.ifs and not g.is_async and isinstance(g.target, ast.Name):
                return ast.copy_location(call("__pyvc_quant__", [ast.Constant(node.func.id), g.iter, ast.Lambda(args=_args([g.target.id]), body=ge.elt)]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) and isinstance(node.comparators[0].value, bool):
            return ast.copy_location(call("__pyvc_is__", [node.left, node.comparators[0], ast.Constant(isinstance(node.ops[0], ast.IsNot))]), node)
        return node

    # -- loops --------------------------------------------------------------------------------------------------------
    def __init__(self): self.fn, self.locs, self.count, self.depth, self.cls, self.loops = [], [], 0, 0, [], {}

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        fn, self.fn = self.fn, []
        self.generic_visit(node)
        self.fn = fn
        self.cls.pop()
        return node

    def key(self):
        """Name of the next loop: [Class.]function#number, numbered in source order."""
        f = ".".join(self.cls + self.fn)
        self.loops[f] = self.loops.get(f, -1) + 1
        return "%s#%d" % (f, self.loops[f])

    def visit_While(self, node):
        key = self.key() if self.fn else None
        self.generic_visit(node)
        if node.orelse or key is None: return node
        carried = set(x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not x.id.startswith("__pyvc_"))
        filled = set(x.func.value.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name))
        filled = (filled & self.locs[-1]) - carried if self.locs else set()
        self.count += 1
        L = "__pyvc_L%d" % self.count
        on = lambda: ast.Attribute(ast.Name(L, ast.Load()), "on", ast.Load())
        meth = lambda m, *a: ast.Call(ast.Attribute(ast.Name(L, ast.Load()), m, ast.Load()), list(a), [])
        out = [ast.Assign([ast.Name(L, ast.Store())], call("__pyvc_while__", [ast.Constant(key), ast.Tuple([ast.Constant(x) for x in sorted(carried)], ast.Load())])),
               ast.If(on(), [ast.Expr(meth("start", call("__pyvc_locals__", [])))] + [ast.Assign([ast.Name(nm, ast.Store())], meth("enter", ast.Constant(nm))) for nm in sorted(carried)]
                      + [ast.Assign([ast.Name(nm, ast.Store())], meth("same", ast.Constant(nm), ast.Name(nm, ast.Load()))) for nm in sorted(filled)], [])]
        node.test = ast.BoolOp(ast.And(), [meth("again"), node.test])
        out += [node, ast.Expr(meth("done"))]
        return [at(node, x) for x in out]

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.locs.append(set(x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)))
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        self.fn.pop()
        self.locs.pop()
        return node

    def visit_Expr(self, node):
        self.generic_visit(node)
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in MUTATORS and simple(v.func.value):
            base = v.func.value
            if v.func.attr == "append" and self.depth and isinstance(base, ast.Name) and len(v.args) == 1 and not v.keywords:
                return at(node, ast.Assign([ast.Name(base.id, ast.Store())], call("__pyvc_append__", [ast.Name(base.id, ast.Load()), v.args[0]])))
            return [at(node, ast.Expr(call("__pyvc_guard__", [copy.deepcopy(base)]))), node]
        return node

    def _store(self, node, targets):
        self.generic_visit(node)
        pre = []
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) and simple(x.value):
                    if self.fn and self.fn[-1] == "__init__" and isinstance(x.value, ast.Name) and x.value.id == "self": continue
                    b = copy.deepcopy(x.value)
                    for y in ast.walk(b):
                        if hasattr(y, "ctx"): y.ctx = ast.Load()
                    pre.append(at(node, ast.Expr(call("__pyvc_guard__", [b]))))
        return pre + [node] if pre and self.fn else node

    def visit_Assign(self, node): return self._store(node, node.targets)
    def visit_AugAssign(self, node): return self._store(node, [node.target])
    def visit_Delete(self, node): return self._store(node, node.targets)

    def visit_For(self, node):
        key = self.key() if self.fn else None
        ok = not node.orelse and bool(self.fn) and not leaves(node.body)
        self.depth += 1 if ok else 0
        self.generic_visit(node)
        if not ok: return node
        self.depth -= 1
        carried, appended, targets = set(), set(), set(x.id for x in ast.walk(node.target) if isinstance(x, ast.Name))
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not x.id.startswith("__pyvc_L"): carried.add(x.id)
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "__pyvc_append__": appended.add(x.targets[0].id)
        carried -= targets
        self.count += 1
        L = "__pyvc_L%d" % self.count
        lists = [ast.Tuple([ast.Constant(x) for x in sorted(q)], ast.Load()) for q in (carried, appended, targets)]
        out = [ast.Assign([ast.Name(L, ast.Store())], call("__pyvc_loop__", [node.iter] + lists + [ast.Constant(key)]))]
        sym = ast.Attribute(ast.Name(L, ast.Load()), "sym", ast.Load())
        meth = lambda m, *a: ast.Call(ast.Attribute(ast.Name(L, ast.Load()), m, ast.Load()), list(a), [])
        setn = lambda nm, v: ast.Assign([ast.Name(nm, ast.Store())], v)
        for nm in sorted(carried):
            out.append(ast.If(sym, [ast.Try([ast.Expr(meth("before", ast.Constant(nm), ast.Name(nm, ast.Load())))],
                                    [ast.ExceptHandler(ast.Name("NameError", ast.Load()), None, [ast.Pass()])], [], [])], []))
        node.iter = ast.Name(L, ast.Load())
        if carried: node.body.insert(0, ast.If(sym, [setn(nm, meth("enter", ast.Constant(nm))) for nm in sorted(carried)], []))
        out.append(node)
        out.append(ast.If(sym, [setn(nm, meth("after", ast.Constant(nm))) for nm in sorted(carried | targets)], []))
        return [at(node, x) for x in out]


def simple(x):
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        if isinstance(x, ast.Subscript) and not isinstance(x.slice, (ast.Constant, ast.Name)): return False
        x = x.value
    return isinstance(x, ast.Name)


def call(f, args): return ast.Call(ast.Name(f, ast.Load()), args, [])
def at(node, x): return ast.copy_location(x, node)


def leaves(body):
    """Does the loop body leave the loop early (or is it a generator)?"""
    def go(n, depth):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)): return False
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)): return True
        if isinstance(n, ast.Break) and not depth: return True
        d = depth + (1 if isinstance(n, (ast.For, ast.While)) else 0)
        return any(go(x, d) for x in ast.iter_child_nodes(n))
    return any(go(b, 0) for b in body)


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def transform(tree, name):
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return tree
