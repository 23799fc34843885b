from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M
from contracts.mu_common import TRUSTED


def harnesses(tree, tier):
    P = M.program(tree)
    GN = P.load(M.GP + "harmonisation_eiv.GN_algo").GNAlgo
    out = []
    for st in M.structures(tier):
        out.append(Harness("calc_f: " + st[0], make(P, GN, st),
                           ["GN_algo.GNAlgo.calc_f", "Transform2NormInd.reverse", "matchup_maths.evaluate_K", "matchup_maths.evaluate_adjusted_measurand",
                            "matchup_maths.evaluate_measurand", "MatchUp.getSensorTime", "MatchUp.getSensorAcrossTrackIndex", "MatchUp.getSensorAlongTrackIndex"],
                           ["sensor model", "adjustment model"], structure="pairing graph: " + st[0]))
    return out


def make(P, GN, st):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        mu = Y.mu
        G = GN(mu)
        z = lambda k: T.app("z", [k])
        xyza = SArr.of((Y.Nvar + Y.na,), z)
        f0, before = xyza.frozen(), M.snapshot(mu)
        f = ctx.call(G.calc_f, xyza, mu)
        c.oblige("length is number of variables plus number of match-ups", T.and_(lift(f.ndim == 1), T.eq(lift(f.shape[0]), Y.Nvar + Y.Nmu)))
        i, hi = M.generic(c, "i", Y.Nvar)
        c.oblige("variables: estimate minus data", T.eq(f.at(i), z(i) - T.app("val", [i])), hi)
        for s in range(len(Y.Nm)):
            t, ht = M.generic(c, "t", Y.Nm[s])
            g = f.at(Y.Nvar + lift(Y.cNm[s]) + t)
            want = M.spec_fk(Y, z, lambda k: T.app("ks", [k]), s, t)
            c.oblige("adjustment factors of series %d: normalised model difference minus data" % s, T.eq(g, want), ht)
        c.oblige("state unmodified", M.same(xyza, SArr.of(xyza.shape, f0)))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(mu, before)), lift(not M.unchanged(mu, before)))
    return h
