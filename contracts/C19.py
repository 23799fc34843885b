"""Rolling-average weighting matrices: rows are windows on a shared scan-line axis.

Pre: n >= 1 match-ups (symbolic) at times t0 + line(i)*dt + jitter(i), dt > 0, with jitter differing by less than half a scan line
from the first match-up's; positive weights; positive uncertainties.  The generator runs on symbolic arrays; scipy's sparse
matrices are represented by the arrays they were built from (class Sparse: contracts of construction, nonzero, column selection,
maximum).  The window size is fixed per structure."""
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = ["scipy.sparse.csr_matrix: row i holds entries indptr[i]..indptr[i+1]-1; nonzero lists the positions of the non-zero entries; selecting columns U gives column r the entries of column U[r]; max(axis=0) is the attained maximum of each column, absent entries counting as zero",
           "numpy.unique of the non-zero columns: their strictly increasing enumeration", "round to a nearest whole number; min and max of a list bound every element of it"] + N.TRUSTED
ASSUMPTIONS = ["real arithmetic; times measure scan lines to less than half a line", "window sizes 1, 2, 3, 5 (thorough also 4, 9)"]


class Sparse(object):
    __pyvc_mutable__ = True

    def __init__(self, arg, shape=None, dtype=None):
        if not (isinstance(arg, tuple) and len(arg) == 3 and all(isinstance(x, SArr) and x.ndim == 1 for x in arg)) or shape is None: raise T.Unsupported("csr_matrix of something else than its three arrays and shape")
        self.data, self.indices, self.indptr = [x.copy() for x in arg]
        self.shape = shape

    def row(self, i, c):
        """Element (i, c)."""
        lo, hi = lift(self.indptr.at(i)), lift(self.indptr.at(lift(i) + 1))
        p = T.fresh("p", "I")
        return T.sum_(p, lo, hi, T.ite(T.eq(lift(self.indices.at(p)), c), lift(self.data.at(p)), T.real(0)))

    def nonzero(self): return (Rows(self), Columns(self))
    def sorted_indices(self): return self

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None) and isinstance(key[1], Used): return Picked(self, key[1])
        raise T.Unsupported("indexing of a sparse matrix")


class Rows(object):
    def __init__(self, m): self.m = m


class Columns(Rows): pass


class Used(object):
    """The distinct columns of the non-zero entries of a matrix, in increasing order: col(0) < ... < col(m-1)."""

    def __init__(self, m):
        self.of = m
        self.n = T.sym("m!%d" % T.fresh("u", "I").id, "I")
        self.name = "col!%s" % self.n.args[0]
        ctx.current().assume(T.le(T.const(0), self.n))

    def col(self, r): return T.app(self.name, [lift(r)], "I")
    def rank(self, c): return T.app("rank" + self.name, [lift(c)], "I")

    def has(self, r): return T.and_(T.le(T.const(0), r), T.lt(r, self.n))

    def listed(self, i, c):
        """A non-zero entry (i, c): c is listed."""
        return T.implies(T.not_(T.eq(self.of.row(i, c), T.real(0))), T.and_(self.has(self.rank(c)), T.eq(self.col(self.rank(c)), c)))

    def increasing(self, rs):
        return [T.implies(T.and_(self.has(x), self.has(y)), T.eq(T.lt(x, y), T.lt(self.col(x), self.col(y)))) for x in rs for y in rs if x is not y]

    def witness(self, r):
        """(row, fact): column number r has a non-zero entry in that row."""
        i = T.app("row" + self.name, [lift(r)], "I")
        return i, T.implies(self.has(r), T.and_(T.le(T.const(0), i), T.lt(i, lift(self.of.shape[0])), T.not_(T.eq(self.of.row(i, self.col(r)), T.real(0)))))


class Picked(object):
    """Columns `used` of a matrix."""
    __pyvc_mutable__ = True

    def __init__(self, m, used): self.m, self.used, self.shape = m, used, (m.shape[0], used.n)

    def at(self, i, r): return self.m.row(i, self.used.col(r))
    def sorted_indices(self): return self

    def max(self, axis=None):
        if axis != 0: raise T.Unsupported("maximum of a sparse matrix")
        ctx.current().highest = r = Highest(self)
        return r


class Highest(object):
    def __init__(self, p): self.p = p

    def toarray(self):
        return SArr.of((1, self.p.used.n), lambda i, r: self.value(r))
    todense = toarray

    def value(self, r): return T.app("max" + self.p.used.name, [lift(r)])

    def facts(self, r, rows):
        """The maximum is attained and not exceeded (in the given rows)."""
        w = T.app("argmax" + self.p.used.name, [lift(r)], "I")
        n = lift(self.p.shape[0])
        return w, [T.implies(self.p.used.has(r), T.and_(T.le(T.const(0), w), T.lt(w, n), T.eq(self.value(r), self.p.at(w, r)), *[T.le(self.p.at(i, r), self.value(r)) for i in rows]))]


def unique(x, **k):
    if not isinstance(x, Columns) or k: raise T.Unsupported("unique")
    return Used(x.m)


def harnesses(tree, tier):
    out = []
    for path, nm in (("tools/generate_w_matrices.py", "generate_w_matrices"), ("tools/pmh2fiduceo.py", "pmh2fiduceo")):
        P = N.program(tree)
        M.complete(P)
        mod = P.load_path(path)
        mod.csr_matrix, mod.unique = Sparse, unique
        for k in (1, 2, 3, 5) + ((4, 9) if tier == "thorough" else ()):
            for mode in ("uniform, uncertainty per line", "uniform, one uncertainty", "weights, uncertainty per line", "weights, one uncertainty"):
                out.append(Harness("%s: window %d, %s" % (nm, k, mode), make(mod, k, mode), ["%s.generate_rolling_average_w_matrix" % nm], structure="window %d" % k))
    for k in (1, 2, 3, 5) + ((4, 9) if tier == "thorough" else ()): out.append(Harness("lemma: windows on the columns in use, window %d" % k, lemma(k), [], structure="window %d" % k))
    for i1, i2 in (("ref", "AMSUB"), ("ref", "MHS"), ("MHS", "MHS"), ("AMSUB", "MHS"), ("MHS", "AMSUB"), ("AMSUB", "AMSUB")):
        out.append(Harness("microwave wrapper: %s and %s" % (i1, i2), microwave(tree, i1, i2), ["MW_add_W_matrices.return_w_matrix_variables_MW"], uses=["generate_rolling_average_w_matrix", "return_w_matrix_variables"]))
    for ref in (True, False):
        out.append(Harness("AVHRR wrapper" + (", reference series" if ref else ""), avhrr(tree, ref), ["AVHRR_to_updated_spec.return_w_matrices"], uses=["generate_rolling_average_w_matrix"]))
    return out


class Generator(object):
    """The contract of generate_rolling_average_w_matrix: the number of columns depends on times, interval and window size only."""

    def __init__(self): self.calls = []

    def __call__(self, times, dt, u, weights=None, kernel_size=None):
        k = weights.shape[0] if weights is not None else kernel_size if kernel_size is not None else u.shape[1]
        g = Generated(self, times, dt, u, k, weights)
        self.calls.append(g)
        return g, SArr.of((g.shape[1],), lambda r: lift(u) if not isinstance(u, SArr) else T.app("line%d" % g.number, [lift(r)]))


class Generated(object):
    def __init__(self, gen, times, dt, u, k, weights):
        pr = ctx.current()
        same = [g for g in gen.calls if pr.prover.prove(pr.pc, T.and_(alike(g.times, times), T.eq(lift(g.dt), lift(dt)), T.eq(lift(g.k), lift(k))))[0] == "valid"]
        self.number = same[0].number if same else len(gen.calls)
        self.times, self.dt, self.u, self.k, self.weights = times, dt, u, k, weights
        m = T.sym("columns%d" % self.number, "I")
        ctx.current().assume(T.le(T.const(1), m))
        self.shape = (times.shape[0], m)


def alike(x, y):
    """Two one-dimensional arrays hold the same values (at an arbitrary position)."""
    if x is y: return T.TRUE
    if not (isinstance(x, SArr) and isinstance(y, SArr) and x.ndim == y.ndim == 1): raise T.Unsupported("times or weights of another kind")
    i = T.fresh("i", "I")
    return T.and_(T.eq(lift(x.shape[0]), lift(y.shape[0])), T.implies(T.and_(T.le(T.const(0), i), T.lt(i, lift(x.shape[0]))), T.eq(x.at(i), y.at(i))))


def of(c, name, g, times, dt, weights=None):
    if not isinstance(g, Generated): raise T.Unsupported("the matrix is built in another way")
    c.oblige(name + " is generated from its own sensor's times", T.and_(alike(g.times, times), T.eq(lift(g.dt), dt), alike(g.weights, weights) if weights is not None else T.TRUE))


def vector(c, name, v, m, at=None):
    c.oblige(name + ": one uncertainty per column of its matrix", T.and_(lift(isinstance(v, SArr) and v.ndim == 1), T.eq(lift(v.shape[0]), m.shape[1])))
    r = T.sym("r", "I")
    if at is not None: c.oblige(name + ": the uncertainty supplied", T.eq(lift(v.at(r)), at), [T.le(T.const(0), r), T.lt(r, m.shape[1])])


def microwave(tree, i1, i2):
    P = N.program(tree)
    M.complete(P)
    mod = P.load_path("tools/MW_add_W_matrices.py")

    def h(c):
        from pyvc.npmodel import asarray
        mod.generate_rolling_average_w_matrix = gen = Generator()
        packed = []

        def pack(ws, us):
            packed.append((list(ws), list(us)))
            return tuple("packed%d" % q for q in range(6))
        mod.return_w_matrix_variables = pack
        n = T.sym("n", "I")
        dt = T.sym("dt")
        c.assume(T.le(T.const(1), n), T.lt(T.real(0), dt))
        t1, t2 = [N.sym_array("time%d" % s, (n,)) for s in (1, 2)]
        u1s, u2s = [[T.sym("u%d%d" % (s, q)) for q in range(3)] for s in (1, 2)]
        for x in u1s + u2s: c.assume(T.lt(T.real(0), x))
        u1, u2 = asarray(u1s if i1 != "ref" else u1s[:1]), asarray(u2s)
        w = N.sym_array("w", (T.sym("k", "I"),))
        got = ctx.call(mod.return_w_matrix_variables_MW, t1, t2, dt, u1, u2, w, i1, i2)
        if len(packed) != 1: raise T.Unsupported("matrices are packed in another way")
        ws, us = packed[0]
        c.oblige("packed variables handed on", lift(tuple(got[:6]) == tuple("packed%d" % q for q in range(6))))
        uses = []
        for x in got[6:]:
            if not (isinstance(x, SArr) and x.ndim == 1): raise T.Unsupported("assignment of matrices to variables")
            xs = [lift(x.at(q)) for q in range(int(x.shape[0]))]
            if not all(y.op == "const" for y in xs): raise T.Unsupported("assignment of matrices to variables")
            uses.append([int(y.args[0]) for y in xs])
        for s, inst, t, u, wu, uu in ((1, i1, t1, u1s, uses[0], uses[2]), (2, i2, t2, u2s, uses[1], uses[3])):
            c.oblige("sensor %d: one assignment per variable" % s, lift(len(wu) == len(uu) == {"ref": 1, "AMSUB": 11, "MHS": 9}[inst]))
            c.oblige("sensor %d: uncertainties go with matrices" % s, lift([x > 0 for x in wu] == [x > 0 for x in uu] and (inst == "ref") == (not any(wu)) and min(wu + uu) >= 0 and max(wu) <= len(ws) and max(uu) <= len(us)))
            for col, (a, b) in enumerate(zip(wu, uu)):
                if not a or not (0 < a <= len(ws) and 0 < b <= len(us)): continue
                of(c, "sensor %d variable %d: the matrix" % (s, col), ws[a - 1], t, dt, w)
                vector(c, "sensor %d variable %d" % (s, col), us[b - 1], ws[a - 1], u[min(col, 2)])
    return h


def avhrr(tree, ref):
    P = N.program(tree)
    M.complete(P)
    mod = P.load_path("tools/AVHRR_to_updated_spec.py")

    def h(c):
        mod.generate_rolling_average_w_matrix = gen = Generator()
        n, k = T.sym("n", "I"), T.sym("k", "I")
        c.assume(T.le(T.const(1), n), T.le(T.const(1), k))
        d1, d2 = T.sym("width1"), T.sym("width2")
        t1, t2 = [N.sym_array("time%d" % s, (n,)) for s in (1, 2)]
        us = [N.sym_array("u%d" % q, (n, k)) for q in range(4)]
        m1 = 1 if ref else T.sym("m1", "I")
        if not ref: c.assume(T.le(T.const(2), m1))
        ws, vs = ctx.call(mod.return_w_matrices, us[0], us[1], us[2], us[3], t1, d1, t2, d2, m1)
        sensors = [] if ref else [(1, t1, d1, us[:2])]
        sensors.append((2, t2, d2, us[2:]))
        c.oblige("one matrix per sensor that is not a reference", lift(len(ws) == len(sensors)))
        c.oblige("two uncertainty vectors per matrix", lift(len(vs) == 2 * len(sensors)))
        for q, (s, t, d, u) in enumerate(sensors):
            if len(ws) <= q or len(vs) < 2 * q + 2: continue
            of(c, "sensor %d: the matrix" % s, ws[q], t, d)
            for x, nm in enumerate(("space", "target")): vector(c, "sensor %d, %s counts" % (s, nm), vs[2 * q + x], ws[q])
    return h


def make(mod, k, mode):
    def h(c):
        n = T.sym("n", "I")
        dt, t0 = T.sym("dt"), T.sym("t0")
        c.assume(T.le(T.const(1), n), T.lt(T.real(0), dt))
        line, jit = [lambda i, s=s, so=so: T.app(s, [lift(i)], so) for s, so in (("line", "I"), ("jit", "R"))]
        at = lambda i: T.toreal(line(i)) + jit(i)                 # time in scan lines
        times = SArr.of((n,), lambda i: t0 + at(i) * dt)
        zero = T.const(0)
        near = lambda i: T.and_(T.lt((jit(i) - jit(zero)) * 2, T.real(1)), T.lt((jit(zero) - jit(i)) * 2, T.real(1)))
        c.fact("jit", lambda a, t: near(a[0]))
        W = [T.sym("w%d" % q) for q in range(k)] if mode.startswith("weights") else [T.real(1) / k] * k
        for w in W: c.assume(T.lt(T.real(0), w))
        kw = {}
        if mode.startswith("weights"):
            from pyvc.npmodel import asarray
            kw["weights"] = asarray(W)
        one = mode.endswith("one uncertainty")
        U = T.sym("u") if one else SArr.of((n, k), lambda i, q: T.app("ku", [lift(i), lift(q)]))
        if one:
            c.assume(T.lt(T.real(0), U))
            if "weights" not in kw: kw["kernel_size"] = k
        else: c.fact("ku", lambda a, t: T.lt(T.real(0), t))
        keep = [(x, x.store.fn) for x in [times] + ([] if one else [U]) + ([kw["weights"]] if "weights" in kw else [])]
        wm, um = ctx.call(mod.generate_rolling_average_w_matrix, times, dt, U, **kw)
        c.oblige("inputs unmodified", lift(all(x.store.fn is f0 for x, f0 in keep)))
        if not isinstance(wm, Picked): raise T.Unsupported("the matrix is built in another way")
        S, used = wm.m, wm.used
        c.oblige("one row per match-up", T.eq(lift(wm.shape[0]), n))
        # the matrix before columns are selected: row i holds the weights at pos(i), ..., pos(i)+k-1 and nothing else
        i, hi = M.generic(c, "i", n)
        j, hj = M.generic(c, "j", n)
        for x, hx in ((i, hi), (j, hj)):
            c.oblige("rows have one entry per line of the window", T.eq(lift(S.indptr.at(x + 1)) - lift(S.indptr.at(x)), T.const(k)), hx)
        first = lambda x: lift(S.indices.at(lift(S.indptr.at(x))))
        p = T.sym("c", "I")
        c.oblige("row = weights on consecutive lines", T.eq(S.row(i, p), window(first(i), p, W)), hi)
        # the smallest position is one whole number, whatever it is; what is rounded is the distance in scan lines (used when it can be proved)
        f0, fi, fj = [c.prover.simp(c.pc + hx, first(x)) for x, hx in ((zero, []), (i, hi), (j, hj))]
        whole, scaled = {}, {}
        for x, f, hx in ((zero, f0, []), (i, fi, hi), (j, fj, hj)):
            for s in T.subterms(f):
                if s.op == "app" and s.args[0] in ("imin_of", "imax_of") and not any(y is i or y is j for y in T.syms(s)): whole.setdefault(s, T.sym("whole%d" % len(whole), "I"))
                if s.op == "app" and s.args[0] in ("round", "floor", "trunc") and any(y is x for y in T.syms(s)):
                    e = at(x) - at(zero)
                    if c.prover.prove(c.pc + hx, T.eq(s.args[1], e))[0] == "valid": scaled[s.args[1]] = e
        def bound(up):
            def f(a, t):
                x = a[0]
                if x.op != "sum" or x.args[3].op != "app": return T.TRUE
                bv, lo, up_to, v = x.args[0], x.args[1], x.args[2], x.args[3].args[1]
                at_ = [i, i * k + (k - 1)]
                return T.and_(*[T.implies(T.and_(T.le(lo, e), T.lt(e, up_to)), T.le(c.prover.simp(c.pc + hi, T.subst(v, {bv: e})), T.toreal(t)) if up else T.le(T.toreal(t), T.subst(v, {bv: e}))) for e in at_])
            return f
        c.fact("imin_of", bound(False))
        for nm in ("imax_of", "max_of"): c.fact(nm, bound(True))
        c.oblige("positions count from zero", T.le(zero, first(i)), hi)
        c.oblige("positions lie inside the matrix", T.lt(lift(S.indices.at(lift(S.indptr.at(i)) + (k - 1))), lift(S.shape[1])), hi)
        f0, fi, fj = [T.subst(T.subst(f, whole), scaled) for f in (f0, fi, fj)]
        for x, f, hx in ((i, fi, hi), (j, fj, hj)):
            c.oblige("rows placed by scan line", T.eq(f - f0, line(x) - line(zero)), hx)
        v0, vi, vj = [T.sym("v!%d" % q, "I") for q in range(3)]
        c.oblige("rows lie as far apart as their scan lines", T.eq(vj - vi, line(j) - line(i)), [T.eq(vi - v0, line(i) - line(zero)), T.eq(vj - v0, line(j) - line(zero))])
        c.oblige("columns selected are those in use", lift(used.of is S))
        c.oblige("one uncertainty per column", T.and_(lift(um.ndim == 1), T.eq(lift(um.shape[0]), lift(wm.shape[1]))))
        r = T.sym("r", "I")
        hr = [used.has(r)]
        if one: c.oblige("uncertainty is the one supplied", T.eq(lift(um.at(r)), U), hr)
        else:
            H = getattr(c, "highest", None)
            if H is None: raise T.Unsupported("the uncertainties are found in another way")
            SU = H.p.m
            for x, hx in ((i, hi), (j, hj)): c.oblige("uncertainty rows have one entry per line of the window", T.eq(lift(SU.indptr.at(x + 1)) - lift(SU.indptr.at(x)), T.const(k)), hx)
            c.oblige("uncertainty row = supplied uncertainties on the same lines", T.eq(SU.row(i, p), window(first(i), p, [U.at(i, q) for q in range(k)])), hi)
            c.oblige("uncertainty columns are the matrix's", lift(H.p.used is used))
            c.oblige("uncertainty is the highest of its column", T.eq(lift(um.at(r)), H.value(r)), hr)
    return h


def window(first, c, w):
    """Row with the values w in columns first, first+1, ... : its element c."""
    r = T.real(0)
    for q, x in enumerate(w): r = r + T.ite(T.eq(c, first + q), lift(x), T.real(0))
    return r


class Abstract(object):
    """A matrix with the rows established by the obligations on the generator."""

    def __init__(self, n, value, k): self.shape, self.value, self.k = (n, None), value, k

    def row(self, i, c): return window(T.app("pos", [lift(i)], "I"), c, [self.value(i, q) for q in range(self.k)])


def lemma(k):
    def h(c):
        n = T.sym("n", "I")
        c.assume(T.le(T.const(1), n))
        w = [T.sym("w%d" % q) for q in range(k)]
        for x in w: c.assume(T.lt(T.real(0), x))
        pos = lambda i: T.app("pos", [lift(i)], "I")
        A = Abstract(n, lambda i, q: w[q], k)
        u = Used(A)
        i, hi = M.generic(c, "i", n)
        j, hj = M.generic(c, "j", n)
        R = [u.rank(pos(i) + q) for q in range(k)]
        chain = [u.listed(i, pos(i) + q) for q in range(k)]
        for q in range(k):
            c.oblige("line %d of a window has a column" % q, T.and_(u.has(R[q]), T.eq(u.col(R[q]), pos(i) + q)), hi + [chain[q]])
        own = [T.and_(u.has(R[q]), T.eq(u.col(R[q]), pos(i) + q)) for q in range(k)]
        for q in range(1, k):
            c.oblige("columns of a window are consecutive (%d)" % q, T.eq(R[q], R[q - 1] + 1), hi + own[q - 1:q + 1] + u.increasing([R[q - 1], R[q], R[q - 1] + 1]))
        cons = [T.eq(R[q], R[0] + q) for q in range(k)]
        for q in range(k): c.oblige("row holds weight %d in place" % q, T.eq(A.row(i, u.col(R[0] + q)), w[q]), hi + own + cons)
        r = T.sym("r", "I")
        out = T.or_(T.lt(r, R[0]), T.le(R[0] + k, r))
        c.oblige("row holds nothing else", T.eq(A.row(i, u.col(r)), T.real(0)), hi + own + cons + [u.has(r), out] + [f for y in R for f in u.increasing([r, y])])
        other = u.rank(pos(j))
        for d in range(k): c.oblige("%d lines apart: shifted by %d columns" % (d, d), T.implies(T.eq(pos(j) - pos(i), T.const(d)), T.eq(other, R[0] + d)), hi + hj + own + cons)
        far = T.and_(u.has(other), T.eq(u.col(other), pos(j)))
        c.oblige("a window further away shares no column", T.implies(T.le(T.const(k), pos(j) - pos(i)), T.le(R[0] + k, other)), hi + hj + own + cons + [far] + u.increasing([R[k - 1], other]))
        rw, wit = u.witness(r)
        c.oblige("no column unused", T.not_(T.eq(A.row(rw, u.col(r)), T.real(0))), [u.has(r), wit])
        # uncertainties: the attained maximum of positive values is one of the values supplied for that line
        c.fact("ku", lambda a, t: T.lt(T.real(0), t))
        ku = lambda i, q: T.app("ku", [lift(i), lift(q)])
        B = Abstract(n, ku, k)
        H = Highest(Picked(B, u))
        v, fs = H.facts(r, [rw])
        hyp = [u.has(r), wit] + fs
        covers = T.or_(*[T.eq(u.col(r), pos(rw) + q) for q in range(k)])
        c.oblige("some window covers every column", covers, hyp)
        c.oblige("its uncertainty is positive", T.lt(T.real(0), H.value(r)), hyp + [covers])
        c.oblige("uncertainty supplied for that line by a window covering it",
                 T.or_(*[T.and_(T.eq(u.col(r), pos(v) + q), T.eq(H.value(r), ku(v, q))) for q in range(k)]), hyp + [T.lt(T.real(0), H.value(r))])
    return h
