from pyvc import terms as T, ctx, npmodel
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M

TRUSTED = M.TRUSTED[:1] + ["extraction of the compiled routine (pyvc/cyx.py): drops C type annotations and declarations without value, hence integer widths, single precision and argument type checks"]


def harnesses(tree, tier):
    P = M.program(tree)
    GN = P.load(M.GP + "harmonisation_eiv.GN_algo").GNAlgo
    cls = P.load(M.PKG + "matchupProcessing.transform2normind.Transform2NormInd").Transform2NormInd
    cy = P.load(M.GP + "harmonisation_eiv.cython_lib_GN_algo").unconvert_Xs
    return [Harness("three de-normalisations: " + st[0], make(P, GN, cls, cy, st),
                    ["GN_algo.GNAlgo.unconvert_Xs", "cython_lib_GN_algo.unconvert_Xs", "Transform2NormInd.reverse", "MatchUp.getVariableData"], structure="pairing graph: " + st[0])
            for st in M.structures(tier)]


def make(P, GN, cls, cy, st):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        mu = Y.mu
        G = GN(mu)
        z = lambda k: T.app("val", [k])
        xyza = SArr.of((Y.Nvar + Y.na,), lambda k: T.ite(T.lt(k, Y.Nvar), z(k), T.app("a", [k - Y.Nvar])))
        f0, before = xyza.frozen(), M.snapshot(mu)
        U = ctx.call(cls().reverse, mu)
        ia = npmodel.asarray
        for s in range(len(Y.Nm)):
            for pos in (0, 1):
                q = Y.Im[s][pos]
                bl = M.series_blocks(Y, s, pos)
                t, ht = M.generic(c, "t", Y.Nm[s])
                X1 = ctx.call(G.unconvert_Xs, xyza, mu.unc, mu.idx, mu._original_idx, q, s + 1)
                X2 = ctx.call(cy, xyza, ia(mu.idx["n_sensor"]), ia(mu.idx["idx"]), ia(mu._original_idx["idx"]), ia(mu.idx["n_cov"]), ia(mu.idx["n_mu"]), ia(mu.idx["N_var"]),
                              list(mu.unc), list(mu.w_matrices), list(mu.u_matrices), q, s + 1, Y.ms[q])
                nm = "series %d position %d: " % (s + 1, pos + 1)
                for w, X in (("solver", X1), ("compiled", X2)):
                    c.oblige(nm + w + ": one row per match-up, one column per variable", T.and_(lift(X.ndim == 2), T.eq(lift(X.shape[0]), lift(Y.Nm[s])), T.eq(lift(X.shape[-1]), T.const(len(bl)))))
                for v, b in enumerate(bl):
                    want = M.spec_X(Y, z, b, t)
                    c.oblige(nm + "solver, variable %d (form %d) in original units" % (v + 1, Y.form[b]), T.eq(X1.at(t, T.const(v)), want), ht)
                    c.oblige(nm + "compiled, variable %d in original units" % (v + 1), T.eq(X2.at(t, T.const(v)), want), ht)
                    g = ctx.call(U.getVariableData, v + 1, Y.sname[q], s + 1)
                    c.oblige(nm + "inverse transform, variable %d: one value per match-up" % (v + 1), T.eq(lift(g.shape[0]), lift(Y.Nm[s])))
                    c.oblige(nm + "inverse transform, variable %d in original units" % (v + 1), T.eq(g.at(t), want), ht)
        c.oblige("state unmodified", M.same(xyza, SArr.of(xyza.shape, f0)))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(mu, before)), lift(not M.unchanged(mu, before)))
    return h
