from pyvc import terms as T, ctx, npmodel
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M

TRUSTED = ["min() and max() of an array by their contract: a function of the array's contents", "copy.deepcopy of index structures by its Python semantics"]


def harnesses(tree, tier):
    P = M.program(tree)
    cls = P.load(M.PKG + "matchupProcessing.simulate_matchup.SimulateMatchUp").SimulateMatchUp
    return [Harness("simulation: " + st[0], make(P, cls, st), ["SimulateMatchUp.run", "SimulateMatchUp.return_simulation_idx", "SimulateMatchUp.return_simulation_x", "SimulateMatchUp.space_fill_sim"],
                    structure="pairing graph: " + st[0]) for st in M.structures(tier)]


def make(P, cls, st):
    def h(c):
        Y = M.build(P, c, st)
        mu = Y.mu
        n = T.sym("n", "I")
        c.assume(T.le(T.const(1), n))
        before = M.snapshot(mu)
        idx0 = M.freeze(mu.idx)
        S = ctx.call(cls().run, mu, n_samples_mu=n)
        nb, k = len(Y.blocks), len(Y.Nm)
        c.oblige("one value per block and sample", T.and_(lift(S.values.ndim == 1), T.eq(lift(S.values.shape[0]), n * nb)))
        c.oblige("one adjustment factor per series and sample", T.and_(lift(S.ks.ndim == 1), T.eq(lift(S.ks.shape[0]), n * k)))
        want = {"Nm": [n] * k, "cNm": [n * q for q in range(k + 1)], "N_var": [n] * nb, "idx": [n * q for q in range(nb + 1)]}
        for q in idx0:
            c.oblige("index %s" % q, M.same(list(S.idx[q]), [lift(x) for x in want[q]]) if q in want else M.same(S.idx[q], idx0[q]))
        c.oblige("no index dropped or invented", lift(sorted(S.idx) == sorted(idx0)))

        def step(A, at, src, off, ln, t):
            B = SArr.of((ln,), lambda i: T.app(src, [lift(off) + i]))
            lo, hi = npmodel._extreme("min", B), npmodel._extreme("max", B)
            return T.eq(A.at(at), T.ite(T.eq(n, T.const(1)), lo, lo + T.toreal(t) * (hi - lo) / T.toreal(n - 1)))
        t, ht = M.generic(c, "t", n)
        for b, (v, s, pos) in enumerate(Y.blocks):
            c.oblige("block %d: equal steps over its own range" % b, step(S.values, n * b + t, "val", Y.off_o[b], Y.Nm[s], t), ht)
        for s in range(k):
            c.oblige("series %d: adjustment factors in equal steps over their range" % s, step(S.ks, n * s + t, "ks", Y.cNm[s], Y.Nm[s], t), ht)
        for q in ("a", "sensor_model", "sensor_model_constant", "adjustment_model", "_original_idx"):
            c.oblige(q + " passed through", M.same(M.freeze(getattr(S, q)), before[q]))
        c.oblige("input unmodified: %s" % ",".join(M.unchanged(mu, before)), lift(not M.unchanged(mu, before)))
    return h
