from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M
from contracts.mu_common import TRUSTED

ACC = ["MatchUp.getSensorTime", "MatchUp.getSensorAcrossTrackIndex", "MatchUp.getSensorAlongTrackIndex"]


def harnesses(tree, tier):
    P = M.program(tree)
    mm = P.load(M.PKG + "matchupToolbox.utils.matchup_maths")
    out = []
    for st in M.structures(tier):
        n = len(st[2])
        sels = [0, n, [n], list(range(n, 0, -1))] + ([[1, n]] if n > 2 else [])
        for sel in sels:
            out.append(Harness("measurand, adjustment, factor: %s, series %s" % (st[0], sel), make(P, mm, st, sel),
                               ["matchup_maths.evaluate_measurand", "matchup_maths.evaluate_adjusted_measurand", "matchup_maths.evaluate_K"] + ACC,
                               ["sensor model", "adjustment model"], structure="pairing graph: " + st[0], timeout=300))
    return out


def make(P, mm, st, sel):
    def h(c):
        Y = M.build(P, c, st)
        mu = Y.mu
        before = M.snapshot(mu)
        n = len(st[2])
        series = list(range(1, n + 1)) if sel == 0 else ([sel] if isinstance(sel, int) else sel)
        off = [0]
        for s in series: off.append(off[-1] + Y.Nm[s - 1])
        X = lambda b, i: T.app("val", [lift(Y.off_o[b]) + i])
        a = lambda k: T.app("a", [k])
        V = SArr.of((Y.na, Y.na), lambda i, j: T.app("V", [i, j]))
        arg = list(sel) if isinstance(sel, list) else sel
        R = ctx.call(mm.evaluate_measurand, mu, matchup_series=arg)
        R2, D = ctx.call(mm.evaluate_measurand, mu, matchup_series=arg, return_derivatives=True)
        R3, D3, U = ctx.call(mm.evaluate_measurand, mu, matchup_series=arg, return_derivatives=True, parameter_covariance_matrix=V)
        R4, U4 = ctx.call(mm.evaluate_measurand, mu, matchup_series=arg, parameter_covariance_matrix=V)
        B = ctx.call(mm.evaluate_adjusted_measurand, mu, matchup_series=arg)
        B2, JB = ctx.call(mm.evaluate_adjusted_measurand, mu, matchup_series=arg, return_derivatives=True)
        B3, JB3, D4 = ctx.call(mm.evaluate_adjusted_measurand, mu, matchup_series=arg, return_derivatives=True, return_measurand_derivatives=True)
        K = ctx.call(mm.evaluate_K, mu, matchup_series=arg)
        for nm, x in (("measurand", R), ("measurand 2", R2), ("measurand 3", R3), ("measurand 4", R4), ("uncertainty", U), ("uncertainty 2", U4), ("adjusted", B), ("adjusted 2", B2), ("adjusted 3", B3),
                      ("adjustment derivative", JB), ("adjustment derivative 2", JB3)):
            c.oblige(nm + ": one row per selected match-up, two columns", T.and_(lift(x.ndim == 2), T.eq(lift(x.shape[0]), lift(off[-1])), T.eq(lift(x.shape[-1]), T.const(2))))
        c.oblige("adjustment factors: one per selected match-up", T.and_(lift(K.ndim == 1), T.eq(lift(K.shape[0]), lift(off[-1]))))
        if sel == 0 or isinstance(sel, int) or set(sel) == set(series):
            c.oblige("selection argument unmodified", lift(arg == (list(sel) if isinstance(sel, list) else sel)))
        for z, s in enumerate(series):
            t, ht = M.generic(c, "t", Y.Nm[s - 1])
            row = lift(off[z]) + t
            for p in (0, 1):
                q = Y.Im[s - 1][p]
                nm = "series %d, position %d: " % (s, p + 1)
                want = M.spec_R(Y, s - 1, p, t, X, a)
                for w, x in (("", R), (" (with derivatives)", R2), (" (with covariance)", R3), (" (with covariance, no derivatives)", R4)):
                    c.oblige(nm + "measurand of own data" + w, T.eq(x.at(row, p), want), ht)
                wB, wJ = T.app("B%d" % q, [want]), T.app("JB%d" % q, [want])
                for w, x in (("", B), (" 2", B2), (" 3", B3)): c.oblige(nm + "adjusted measurand" + w, T.eq(x.at(row, p), wB), ht)
                for w, x in (("", JB), (" 2", JB3)): c.oblige(nm + "derivative of the adjustment" + w, T.eq(x.at(row, p), wJ), ht)
                nx, np_ = Y.ms[q], Y.npar[q]
                mine = [k for k, sn in enumerate(Y.par) if sn == Y.sname[q]]
                for w, dd in (("", D), (" 2", D3), (" 3", D4)):
                    J = dd[s - 1][p]
                    if np_ == 0: c.oblige(nm + "no derivatives for a model without parameters" + w, lift(J is None))
                    else:
                        c.oblige(nm + "derivative shape" + w, T.and_(T.eq(lift(J.shape[0]), lift(Y.Nm[s - 1])), T.eq(lift(J.shape[1]), T.const(nx + np_))))
                        for k in range(nx + np_):
                            c.oblige(nm + "derivative %d%s" % (k, w), T.eq(J.at(t, T.const(k)), M.spec_dR(Y, s - 1, p, t, X, a, k)), ht)
                var = T.real(0)
                for j in range(np_):
                    for k in range(np_):
                        var = var + M.spec_dR(Y, s - 1, p, t, X, a, nx + j) * T.app("V", [T.const(mine[j]), T.const(mine[k])]) * M.spec_dR(Y, s - 1, p, t, X, a, nx + k)
                uw = T.fn("sqrt", var) if np_ else T.real(0)
                for w, x in (("", U), (" 2", U4)): c.oblige(nm + "propagated parameter uncertainty" + w, T.eq(x.at(row, p), uw), ht)
            c.oblige("series %d: adjustment factor is second minus first" % s, T.eq(K.at(row), M.spec_B(Y, s - 1, 1, t, X, a) - M.spec_B(Y, s - 1, 0, t, X, a)), ht)
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(mu, before)), lift(not M.unchanged(mu, before)))
    return h
