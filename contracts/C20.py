"""A match-up passes the averaging-validity filter exactly when its averaging windows are complete.

Pre: four two-dimensional uncertainty arrays over the same number of match-ups (symbolic n, symbolic window widths), any
contents; brightness temperatures (one per match-up) and limit given or not.
"""
from pyvc import terms as T, ctx
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = N.TRUSTED + ["isnan as an uninterpreted predicate of the array element; 'a missing value occurs in the window' as a positive count over the window"]
ASSUMPTIONS = ["comparisons of brightness temperatures as comparisons of real numbers (missing brightness temperatures: run-time cases only)"]


def harnesses(tree, tier):
    P = N.program(tree)
    f = P.load_path("tools/AVHRR_to_updated_spec.py").return_valid_averages_mask
    return [Harness("validity filter: " + nm, make(f, bt, lim), ["AVHRR_to_updated_spec.return_valid_averages_mask"])
            for nm, bt, lim in (("windows only", 0, 0), ("temperatures without limit", 1, 0), ("limit without temperatures", 0, 1), ("temperatures and limit", 1, 1))]


def make(f, bt, lim):
    def h(c):
        n, ws = T.sym("n", "I"), [T.sym("w%d" % i, "I") for i in range(4)]
        c.assume(T.le(T.const(0), n), *[T.le(T.const(1), w) for w in ws])
        U = [N.sym_array("u%d" % i, (n, w)) for i, w in enumerate(ws)]
        B = N.sym_array("bt", (n,)) if bt else None
        L = T.sym("limit") if lim else None
        keep = [(x, x.store.fn) for x in U + ([B] if bt else [])]
        r = ctx.call(f, *U, bt=B, temp_lim=L)
        c.oblige("one entry per match-up", T.and_(lift(r.ndim == 1), T.eq(lift(r.shape[0]), n)))
        i, hi = M.generic(c, "i", n)

        def missing(u):
            k = T.fresh("k", "I")
            return T.not_(T.eq(T.sum_(k, 0, u.shape[1], T.ite(T.app("isnan", [u.at(i, k)], "B"), T.const(1), T.const(0))), T.const(0)))
        ok = T.and_(*[T.not_(missing(u)) for u in U])
        if bt and lim: ok = T.and_(ok, T.not_(T.lt(B.at(i), L)))
        v = T.boolify(lift(r.at(i)))
        c.oblige("valid when the windows are complete", T.implies(ok, v), hi)
        c.oblige("excluded otherwise", T.implies(T.not_(ok), T.not_(v)), hi)
        c.oblige("inputs unmodified", lift(all(x.store.fn is f0 for x, f0 in keep)))
    return h
