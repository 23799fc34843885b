from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M
from contracts.mu_common import TRUSTED as _T
from contracts.gn_common import *

TRUSTED = _T + ["chain rule: the directional derivative of the residual is built structurally from the contracts' derivatives of the sensor and adjustment models"]


def harnesses(tree, tier):
    P = M.program(tree)
    GN = P.load(M.GP + "harmonisation_eiv.GN_algo").GNAlgo
    out = []
    for st in M.structures(tier):
        out.append(Harness("Jacobian product is the derivative of calc_f: " + st[0], make(P, GN, st),
                           ["GN_algo.GNAlgo.calc_prod_JPx", "GN_algo.GNAlgo.calc_f", "GN_algo.GNAlgo.calc_R", "GN_algo.GNAlgo.unconvert_Xs", "GN_algo.GNAlgo.get_JPx", "GN_algo.GNAlgo.calc_Px"],
                           ["sensor model", "adjustment model"], structure="pairing graph: " + st[0], timeout=400))
    return out


def make(P, GN, st):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        mu = Y.mu
        G = GN(mu)
        z = lambda k: T.app("z", [k])
        G.xyza = SArr.of((Y.Nvar + Y.na,), z)
        Sf = lambda i, j: T.app("S", [i, j])
        G.S = SArr.of((Y.na, Y.na), Sf)
        v = SArr.of((Y.Nvar + Y.na,), lambda k: T.app("v", [k]))
        dirn = direction(Y, Sf, lambda k: T.app("v", [k]))
        f = ctx.call(G.calc_f, G.xyza, mu)
        out = ctx.call(G.get_JPx, v)
        c.oblige("length is number of variables plus number of match-ups", T.and_(lift(out.ndim == 1), T.eq(lift(out.shape[0]), Y.Nvar + Y.Nmu)))
        i, hi = M.generic(c, "i", Y.Nvar)
        c.oblige("variable rows: derivative of the residual", T.eq(out.at(i), c.prover.simp(c.pc + hi, ddir(c, c.prover.simp(c.pc + hi, f.at(i)), dirn, Y))), hi)
        for s in range(len(Y.Nm)):
            t, ht = M.generic(c, "t", Y.Nm[s])
            at = Y.Nvar + lift(Y.cNm[s]) + t
            # the residual row itself is taken from the real calc_f, so that product and residual are tied to each other
            fr = c.prover.simp(c.pc + ht, f.at(at))
            c.oblige("adjustment-factor rows of series %d: derivative of the residual" % s, T.eq(out.at(at), ddir(c, fr, dirn, Y)), ht)
    return h
