import functools
from pyvc import terms as T, ctx, npmodel as NP
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M

TRUSTED = M.TRUSTED[:1] + ["copy.deepcopy of index structures by its Python semantics"]
SAME = ["sensor_model", "sensor_model_constant", "adjustment_model", "unc", "unck", "w_matrices", "u_matrices", "across_track_index1", "across_track_index2",
        "along_track_index1", "along_track_index2", "time1", "time2"]


def simple(tier):
    R = (1, 0, 0, [1])
    S = [("reference and sensor, random and systematic", [R, (3, 2, 1, [1, 2, 2])], [(0, 1)], (1, 1, 1)),
         ("random only", [R, (2, 1, 0, [1, 1])], [(0, 1), (1, 0)], (1, 0, 0)),
         ("chain of three series, forms 1 2", [R, (2, 2, 0, [1, 2]), (2, 1, 2, [2, 1])], [(0, 1), (1, 2), (2, 1)], (1, 1, 1))]
    if tier == "thorough":
        S.append(("ring of four, forms 1 2", [(2, 1, 0, [2, 2]), (1, 2, 0, [2]), (4, 1, 1, [1, 2, 1, 2]), (1, 1, 0, [1])], [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], (0, 1, 1)))
    return S


def harnesses(tree, tier):
    P = M.program(tree)
    cls = P.load(M.PKG + "matchupProcessing.transform2normind.Transform2NormInd").Transform2NormInd
    out = []
    for st in simple(tier):
        out.append(Harness("run: " + st[0], run(P, cls, st), ["Transform2NormInd.run"], structure="pairing graph: " + st[0]))
        out.append(Harness("reverse after run: " + st[0], back(P, cls, st), ["Transform2NormInd.run", "Transform2NormInd.reverse"], structure="pairing graph: " + st[0]))
    for st in M.structures(tier) + simple(tier):
        out.append(Harness("reverse: " + st[0], rev(P, cls, st), ["Transform2NormInd.reverse"], structure="pairing graph: " + st[0]))
    for nm, rows in PATTERNS + (MORE if tier == "thorough" else []):
        out.append(Harness("weighted, reverse after run: " + nm, weighted(P, cls, rows), ["Transform2NormInd.run", "Transform2NormInd.reverse"], structure="columns used by each row: %s" % (rows,)))
    return out


# variables used by the rows of a weighting matrix: every row uses one that no earlier row uses
PATTERNS = [("one variable per match-up", [[0], [1], [2]]), ("moving average of three", [[0, 1, 2], [1, 2, 3], [2, 3, 4], [3, 4, 5]]), ("gaps", [[0, 1], [2, 3], [3, 4], [6, 5]]),
            ("two new ones at once", [[2, 0], [0, 1, 3, 4], [5, 1]]), ("several overlaps", [[4, 1], [1, 4, 0], [0, 3, 4, 2], [5, 2, 1, 0]])]
MORE = [("moving average of five", [list(range(k, k + 5)) for k in range(7)]), ("descending", [[6, 5, 4], [5, 4, 3], [4, 3, 2], [2, 1], [1, 0]])]


class Rows(M.Sparse):
    """CSR matrix with a given sparsity pattern and arbitrary positive weights W(row, k-th entry)."""

    def __init__(self, rows, name):
        self.rows, self.name = rows, name
        self.shape = (len(rows), 1 + max(k for r in rows for k in r))
        flat = [(i, j) for i, r in enumerate(rows) for j in range(len(r))]
        self.indices = A([k for r in rows for k in r])
        self.indptr = A([sum(len(r) for r in rows[:i]) for i in range(len(rows) + 1)])
        self.nnz = len(flat)
        self.data = A([self.weight(i, j) for i, j in flat])

    def weight(self, i, j): return T.app(self.name, [T.const(i), T.const(j)])

    def dot(self, v):
        if not M.same_dim(v.shape[0], self.shape[1]): raise ValueError("dimension mismatch")
        g = v.frozen()
        return A([functools.reduce(lambda x, y: x + y, [self.weight(i, j) * g(T.const(k)) for j, k in enumerate(r)]) for i, r in enumerate(self.rows)])


def A(xs): return NP._from_seq([lift(x) for x in xs])


def weighted(P, cls, rows):
    def h(c):
        def sparse(c, n, wi):
            w = Rows(rows, "W%d" % wi)
            for i, r in enumerate(rows):
                for j in range(len(r)): c.assume(T.lt(T.real(0), w.weight(i, j)))
                c.assume(T.eq(functools.reduce(lambda x, y: x + y, [w.weight(i, j) for j in range(len(r))]), T.real(1)))
            return w
        n = len(rows)
        Y = M.build(P, c, ("weighted", [(1, 0, 0, [1]), (3, 1, 0, [3, 2, 4])], [(0, 1)], (1, 1, 1)), sizes=[n], sparse=sparse)
        out = ctx.call(cls().run, Y.mu)
        c.oblige("one value per independent variable", T.eq(lift(out.values.shape[0]), lift(Y.off_t[-1]) + Y.ns))
        for k in range(Y.ns): c.oblige("systematic variable %d starts at zero" % k, T.eq(out.values.at(lift(Y.off_t[-1]) + k), T.real(0)))
        rv = ctx.call(cls().reverse, out)
        c.oblige("as many values", T.eq(lift(rv.values.shape[0]), lift(Y.off_o[-1])))
        for b, (v, s, pos) in enumerate(Y.blocks):
            for i in range(n):
                g = lift(Y.off_o[b]) + T.const(i)
                c.oblige("block %d (form %d), match-up %d: original value comes back" % (b, Y.form[b], i), T.eq(rv.values.at(g), T.app("val", [g])))
    return h


def passed(c, Y, mu, out, which):
    for k in SAME: c.oblige("%s: %s passed through" % (which, k), M.same(getattr(out, k), getattr(mu, k)))
    c.oblige(which + ": as many parameters", T.eq(lift(out.a.shape[0]), T.const(Y.na)))
    for k in range(Y.na): c.oblige("%s: parameter %d passed through" % (which, k), T.eq(out.a.at(k), T.app("a", [T.const(k)])))


def ilist(x): return [lift(v) for v in x]


def eqlist(c, nm, got, want):
    c.oblige(nm + ": length", lift(len(got) == len(want)))
    if len(got) == len(want): c.oblige(nm, T.and_(*[T.eq(lift(g), lift(w)) for g, w in zip(got, want)]))


def run(P, cls, st):
    def h(c):
        Y = M.build(P, c, st)
        mu = Y.mu
        before = M.snapshot(mu)
        idx0 = {k: list(v) for k, v in mu.idx.items()}
        im0 = [list(x) for x in mu.idx["Im"]]
        out = ctx.call(cls().run, mu)
        tot = lift(Y.off_t[-1]) + Y.ns
        c.oblige("one value per independent variable", T.and_(lift(out.values.ndim == 1), T.eq(lift(out.values.shape[0]), tot)))
        c.oblige("one adjustment factor per match-up", T.and_(lift(out.ks.ndim == 1), T.eq(lift(out.ks.shape[0]), Y.Nmu)))
        for b, (v, s, pos) in enumerate(Y.blocks):
            t, ht = M.generic(c, "t", Y.Nm[s])
            c.oblige("block %d: divided by its own random uncertainty" % b, T.eq(out.values.at(lift(Y.off_t[b]) + t), T.app("val", [lift(Y.off_o[b]) + t]) / T.app(Y.uR[b], [t])), ht)
        for k in range(Y.ns): c.oblige("systematic variable %d starts at zero" % k, T.eq(out.values.at(lift(Y.off_t[-1]) + k), T.real(0)))
        for s in range(len(Y.Nm)):
            t, ht = M.generic(c, "t", Y.Nm[s])
            g = lift(Y.cNm[s]) + t
            c.oblige("series %d: adjustment factor divided by its own uncertainty" % s, T.eq(out.ks.at(g), T.app("ks", [g]) / T.app("uK%d" % s, [t])), ht)
        want = list(Y.off_t)
        want[-1] = tot
        eqlist(c, "index of block starts", out.idx["idx"], want)
        eqlist(c, "index of block lengths", out.idx["N_var"], Y.N_t)
        for k in idx0:
            if k not in ("idx", "N_var", "Im"): c.oblige("index %s kept" % k, lift(list(out.idx[k]) == idx0[k]) if k not in ("Nm", "cNm") else T.and_(*[T.eq(lift(x), lift(y)) for x, y in zip(out.idx[k], idx0[k])]))
        c.oblige("pairs kept", lift([list(x) for x in out.idx["Im"]] == im0))
        c.oblige("original index passed through", M.same(out._original_idx, mu._original_idx))
        passed(c, Y, mu, out, "run")
        c.oblige("input unmodified: %s" % ",".join(M.unchanged(mu, before)), lift(not M.unchanged(mu, before)))
        c.oblige("transformed data are new arrays", lift(out.values is not mu.values and out.ks is not mu.ks and out.values.store is not mu.values.store and out.ks.store is not mu.ks.store and out.idx is not mu.idx))
    return h


def back(P, cls, st):
    def h(c):
        Y = M.build(P, c, st)
        mu = Y.mu
        out = ctx.call(cls().run, mu)
        rv = ctx.call(cls().reverse, out)
        i, hi = M.generic(c, "i", Y.off_o[-1])
        c.oblige("as many values", T.eq(lift(rv.values.shape[0]), lift(Y.off_o[-1])))
        for b, (v, s, pos) in enumerate(Y.blocks):
            t, ht = M.generic(c, "t", Y.Nm[s])
            g = lift(Y.off_o[b]) + t
            c.oblige("block %d: original values come back" % b, T.eq(rv.values.at(g), T.app("val", [g])), ht)
        for s in range(len(Y.Nm)):
            t, ht = M.generic(c, "t", Y.Nm[s])
            g = lift(Y.cNm[s]) + t
            c.oblige("series %d: adjustment factors come back" % s, T.eq(rv.ks.at(g), T.app("ks", [g])), ht)
    return h


def rev(P, cls, st):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        mu = Y.mu
        before = M.snapshot(mu)
        rv = ctx.call(cls().reverse, mu)
        z = lambda k: T.app("val", [k])
        c.oblige("one value per original variable", T.and_(lift(rv.values.ndim == 1), T.eq(lift(rv.values.shape[0]), lift(Y.off_o[-1]))))
        for b, (v, s, pos) in enumerate(Y.blocks):
            t, ht = M.generic(c, "t", Y.Nm[s])
            c.oblige("block %d: back in original units (form %d)" % (b, Y.form[b]), T.eq(rv.values.at(lift(Y.off_o[b]) + t), M.spec_X(Y, z, b, t)), ht)
        c.oblige("one adjustment factor per match-up", T.eq(lift(rv.ks.shape[0]), Y.Nmu))
        for s in range(len(Y.Nm)):
            t, ht = M.generic(c, "t", Y.Nm[s])
            g = lift(Y.cNm[s]) + t
            c.oblige("series %d: adjustment factor multiplied by its own uncertainty" % s, T.eq(rv.ks.at(g), T.app("ks", [g]) * T.app("uK%d" % s, [t])), ht)
        for k in ("idx", "N_var", "Nm", "cNm"): eqlist(c, "index " + k, rv.idx[k], mu._original_idx[k])
        for k in mu._original_idx:
            if k not in ("idx", "N_var", "Nm", "cNm"): c.oblige("index %s" % k, lift(rv.idx[k] == mu._original_idx[k]))
        passed(c, Y, mu, rv, "reverse")
        c.oblige("input unmodified: %s" % ",".join(M.unchanged(mu, before)), lift(not M.unchanged(mu, before)))
    return h
