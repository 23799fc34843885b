import numpy as np
from runtime import gen, gn_rt
from runtime.gn_rt import close
RULE = "one case = a random match-up object (series of different pairs, sensors with different numbers of variables and parameters, optional track indices) and a selection of series (all, one, a list in any order)"


def cases(rng, tier):
    for z in range(160 if tier == "quick" else 2500):
        p = gen.payload(rng, forms=(1, 2, 3, 4), min_n=1)
        k = len(p["series"])
        p["sel"] = [0, rng.randint(1, k), rng.sample(range(1, k + 1), rng.randint(1, k))][z % 3]
        yield p


def check(p):
    MM = gn_rt.modules()["MM"]
    mu, L, F = gen.matchup(p)
    before = gen.snapshot(mu)
    sel = p["sel"]
    order = list(range(1, len(L.Nm) + 1)) if sel == 0 else [sel] if isinstance(sel, int) else sel
    X = lambda s, pos: np.array([mu.values[L.idx[b]:L.idx[b + 1]] for b, (v, ss, pp) in enumerate(L.blocks) if (ss, pp) == (s, pos)], dtype=float).T
    E = {(s, pos): gn_rt.ref_eval(mu, L, X(s, pos), mu.a, s, pos) for s in range(len(L.Nm)) for pos in (0, 1)}
    rows = lambda k: np.concatenate([np.array([E[n - 1, 0][k], E[n - 1, 1][k]]).T for n in order])
    out = []
    r = gen.rs(p, "cov")
    npar = len(mu.a)
    A = r.randn(npar, npar + 1)
    V = gen.f32(A.dot(A.T) / max(1, npar))
    g = MM.evaluate_measurand(mu, matchup_series=sel)
    if not close(g, rows(0)): out.append(("C12:measurand", "series %r: %r, expected %r" % (sel, g, rows(0))))
    g, D = MM.evaluate_measurand(mu, matchup_series=sel, return_derivatives=True)
    if not close(g, rows(0)): out.append(("C12:measurand with derivatives", "%r" % g))
    for n in order:
        for pos in (0, 1):
            J = E[n - 1, pos][1]
            if (J is None) != (D[n - 1][pos] is None) or (J is not None and not close(D[n - 1][pos], J)): out.append(("C12:derivatives", "series %d sensor %d: %r" % (n, pos, D[n - 1][pos])))
    B = MM.evaluate_adjusted_measurand(mu, matchup_series=sel)
    if not close(B, rows(2)): out.append(("C12:adjusted measurand", "%r, expected %r" % (B, rows(2))))
    B, JB, D = MM.evaluate_adjusted_measurand(mu, matchup_series=sel, return_derivatives=True, return_measurand_derivatives=True)
    if not close(B, rows(2)) or not close(JB, rows(3)): out.append(("C12:adjustment derivative", "%r, expected %r" % (JB, rows(3))))
    B, JB = MM.evaluate_adjusted_measurand(mu, matchup_series=sel, return_derivatives=True)
    if not close(B, rows(2)) or not close(JB, rows(3)): out.append(("C12:adjustment derivative alone", "%r, expected %r" % (JB, rows(3))))
    K = MM.evaluate_K(mu, matchup_series=sel)
    kk = rows(2)[:, 1] - rows(2)[:, 0]
    if not (np.shape(K) == kk.shape and np.all(np.abs(K - kk) <= 1e-3 * (1 + np.abs(rows(2)).max(axis=1)))): out.append(("C12:adjustment factor", "%r, expected %r" % (K, kk)))
    for der in (False, True):
        res = MM.evaluate_measurand(mu, matchup_series=sel, return_derivatives=der, parameter_covariance_matrix=V)
        if not isinstance(res, tuple) or len(res) != (3 if der else 2): out.append(("C12:uncertainty returned", "%r" % (type(res),))); continue
        U = res[-1]
        if not close(res[0], rows(0)): out.append(("C12:measurand with uncertainty", "%r" % (res[0],)))
        want = []
        for n in order:
            c = []
            for pos in (0, 1):
                q = L.Im[n - 1][pos]; J = E[n - 1, pos][1]
                loc = [i for i, s in enumerate(mu.idx["parameter_sensor"]) if s == L.sensors[q]]
                if J is None: c.append(np.zeros(L.Nm[n - 1]))
                else:
                    Jp = J[:, L.ms[q]:]
                    c.append(np.sqrt(np.einsum("ni,ij,nj->n", Jp, V[np.ix_(loc, loc)], Jp)))
            want.append(np.array(c).T)
        if not close(U, np.concatenate(want), 1e-3): out.append(("C12:parameter uncertainty", "%r, expected %r" % (U, np.concatenate(want))))
    ch = gen.diff_snapshot(before, gen.snapshot(mu))
    if ch: out.append(("C12:input modified", "%r" % ch))
    return out
