import numpy as np
from runtime import gen, boot, gn_rt
RULE = "one case = a random match-up (series of different lengths and pairs) simulated with a random sample count"


def cases(rng, tier):
    for z in range(250 if tier == "quick" else 3000):
        p = gen.payload(rng, forms=(1, 2, 3, 4))
        p["n"] = rng.choice([1, 2, 3, 20, rng.randint(1, 40)])
        yield p


def check(p):
    boot.inject()
    import harmonisation as H
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    H.MatchUp = MatchUp
    from harmonisation.core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp
    mu, L, F = gen.matchup(p)
    before = gen.snapshot(mu)
    n = p["n"]
    S = SimulateMatchUp().run(mu, n_samples_mu=n)
    out = []
    ch = gen.diff_snapshot(before, gen.snapshot(mu))
    if ch: out.append(("C17:input modified", "%r" % ch))
    k, nb = len(L.Nm), len(L.blocks)
    want = {"Nm": [n] * k, "cNm": [n * q for q in range(k + 1)], "N_var": [n] * nb, "idx": [n * q for q in range(nb + 1)]}
    for q in ("Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov", "parameter_sensor", "sensor_model_constant_sensor"): want[q] = before["idx"][q]
    for q in want:
        if not gen.same(list(S.idx[q]), list(want[q])): out.append(("C17:index", "%s is %r, expected %r" % (q, S.idx[q], want[q])))
    def steps(x, y, what):
        x = np.asarray(x, dtype=float)
        lo, hi = float(np.min(y)), float(np.max(y))
        e = np.array([lo + (hi - lo) * q / (n - 1.0) for q in range(n)]) if n > 1 else np.array([lo])
        if x.shape != e.shape or np.any(np.abs(x - e) > 1e-5 * (1 + abs(lo) + abs(hi))): out.append(("C17:" + what, "%r, expected %r" % (x, e)))
    if len(S.values) != n * nb or len(S.ks) != n * k: return out + [("C17:length", "%d values, %d adjustment factors" % (len(S.values), len(S.ks)))]
    for b in range(nb): steps(S.values[n * b:n * b + n], mu.values[L.idx[b]:L.idx[b + 1]], "values of a block")
    for s in range(k): steps(S.ks[n * s:n * s + n], mu.ks[L.cNm[s]:L.cNm[s + 1]], "adjustment factors of a series")
    for q in ("a", "sensor_model_constant"):
        if not gen.same(getattr(S, q), getattr(mu, q)): out.append(("C17:" + q, "%r" % getattr(S, q)))
    for q in ("sensor_model", "adjustment_model"):
        if [x for x in getattr(S, q)] != [x for x in getattr(mu, q)]: out.append(("C17:" + q, "models differ"))
    return out
