import numpy as np
from runtime import gen, gn_rt
from runtime.gn_rt import close
RULE = "one case = a random problem and a scripted inner solver (exact steps, scaled steps, tiny, zero and wrong steps, in any order); the solver's iterations, stopping decision and reported quantities against the recorded iterates"
MODES = ["exact", "damped", "mixed", "bad", "zero", "tiny", "late", "param"]


def cases(rng, tier):
    for z in range(140 if tier == "quick" else 1400):
        p = gen.payload(rng, forms=gn_rt.FORMS[z % len(gn_rt.FORMS)], consistent=z % 4 != 0, min_n=1 if z % 5 == 0 else 2, max_series=2, max_n=3, max_m=3)
        p["mode"] = MODES[z % len(MODES)]
        p["scale"] = 0 if z % 2 == 0 else 1 if p["mode"] == "param" else rng.randrange(4)
        p["tol"] = [1e-6, 1e-2, 0.3][z // 7 % 3]
        yield p


def check(p):
    GN = gn_rt.modules()["GN"]
    mu, L, F = gen.matchup(p)
    N, start, Nv, ns = gn_rt.normalised(mu, L)
    r = gen.rs(p, "z")
    z, a = gn_rt.state(p, N, r)
    na, nv, M = len(a), len(z), L.cNm[-1]
    A = r.randn(na, na); V0 = A.dot(A.T) + na * np.eye(na)
    V0 = V0 * [1.0, 1e-12, 1e6, 1.0][p.get("scale", 0)]
    if p.get("scale") == 3 and p["seed"] % 2: V0 = None         # without preconditioner
    G = GN.GNAlgo(N, V0)
    G.xyza = np.append(z, a).astype(np.float32)
    states, steps = [np.array(G.xyza, copy=True)], []
    out = []

    class Inner(object):
        def __init__(self, op, *args, **kw): self.op = op; self.x = None

        def solve(self, rhs, *args, **kw):
            k = len(steps)
            res = np.asarray(G.calc_f(G.xyza, N), dtype=float)
            if not close(rhs, -res, 1e-5): out.append(("C25:right-hand side", "iteration %d: solved for %r, residuals of the current iterate %r" % (k + 1, np.asarray(rhs)[:8], -res[:8])))
            if k and not np.allclose(G.xyza, states[-1], rtol=1e-5, atol=1e-5): out.append(("C25:iterate", "iteration %d starts from another state than the last iterate" % (k + 1)))
            mode = p["mode"]
            if mode == "mixed": mode = ["exact", "bad", "damped", "tiny", "zero"][r.randint(5)]
            if mode == "late": mode = "damped" if k < 3 else "exact"
            if mode == "param": mode = "exact" if k == 0 else "parameters only"
            if mode in ("exact", "damped"):
                n = nv + na
                J = np.array([np.asarray(G.get_JPx(e), dtype=float) for e in np.eye(n)]).T
                x = np.linalg.lstsq(J, np.asarray(rhs, dtype=float), rcond=None)[0]
                if mode == "damped": x = 0.6 * x
            elif mode == "bad": x = 0.05 * r.randn(nv + na)
            elif mode == "parameters only": x = np.append(np.zeros(nv), 20 * r.randn(na))
            elif mode == "tiny": x = 1e-5 * r.randn(nv + na)
            else: x = np.zeros(nv + na)
            x = x.astype(np.float32)
            steps.append(x)
            states.append(np.asarray(np.asarray(states[-1]) + np.concatenate([x[:nv], G.S.dot(x[nv:])]), dtype=states[0].dtype))
            self.x = x

    old = GN.LSMRFramework
    GN.LSMRFramework = Inner
    try: res = G.run(tol=p["tol"], return_covariance=False)
    finally: GN.LSMRFramework = old
    ra, cov, cost, dof, pv, vres, kres, syse, sysn = res
    # decisions along the recorded iterates
    f = [np.asarray(G.calc_f(x, N), dtype=float) for x in states]
    cs = [float(q.dot(q)) for q in f]
    n, tol = len(steps), p["tol"]
    G2 = gn_rt.solver(N, None, None, G.S)
    def verdict(k):
        """Convergence test after iteration k (1-based): True, False or None (within rounding of a threshold)."""
        G2.xyza = states[k]
        d = states[k].astype(float) - states[k - 1].astype(float)
        dn = float(np.max(np.abs(np.concatenate([steps[k - 1][:nv], G.S.dot(steps[k - 1][nv:])]))))
        g = float(np.max(np.abs(2 * np.asarray(G2.get_JPTx(f[k].astype(np.float32)), dtype=float))))
        red = cs[k - 1] - cs[k]
        e = 3e-6 * (cs[k - 1] + cs[k]) + 1e-12
        def lt(x, y, m): return None if abs(x - y) <= m else x < y
        t = [lt(-red, 0, e if red != 0 else -1), lt(red, tol * (1 + cs[k]), e), lt(dn, tol ** 0.5 * (1 + float(np.max(np.abs(states[k])))), 1e-5 * (1 + dn)),
             lt(g, tol ** (1 / 3.) * (1 + cs[k]), 1e-3 * (1 + g))]
        if red == 0: t[0] = True
        if any(x is False for x in t): return False
        return None if any(x is None for x in t) else True
    lim = int(np.ceil(nv))
    vs = [verdict(k) for k in range(1, n + 1)]
    for k, v in enumerate(vs[:-1]):
        if v is True: out.append(("C25:continues after convergence", "test met at iteration %d, went on to %d" % (k + 1, n))); break
    if n < lim and vs and vs[-1] is False: out.append(("C25:stops without convergence", "stopped at iteration %d of at most %d, costs %r" % (n, lim, cs[-3:])))
    if n > lim: out.append(("C25:iteration limit", "%d iterations, limit %d" % (n, lim)))
    if n == 0 and lim > 0: return out + [("C25:no iteration", "")]
    last = states[-1]
    if not np.allclose(ra, last[nv:], rtol=1e-5, atol=1e-6): out.append(("C25:parameters", "%r, last iterate %r" % (ra, last[nv:])))
    if abs(cost - cs[-1]) > 1e-4 * (cs[-1] + 1e-6): out.append(("C25:cost", "%r, last iterate's %r (previous %r)" % (cost, cs[-1], cs[-2])))
    if not close(kres, np.concatenate([f[-1][nv + L.cNm[s]:nv + L.cNm[s + 1]] * mu.unck[s].uR for s in range(len(L.Nm))]), 1e-3): out.append(("C25:adjustment-factor residuals", "%r" % kres))
    want = []
    for b, (v, s, pos) in enumerate(L.blocks): want.append(gn_rt.ref_X(mu, L, start, Nv, ns, f[-1][:nv], s, pos)[:, v])
    want = np.concatenate(want)
    if not close(vres, want, 1e-3): out.append(("C25:variable residuals", "%r, expected %r" % (vres, want)))
    if ns:
        if syse is None or not np.allclose(syse, last[nv - ns:nv], rtol=1e-5, atol=1e-6): out.append(("C25:systematic errors", "%r, last iterate %r" % (syse, last[nv - ns:nv])))
        own = []
        for i in range(1, ns + 1):
            b = [q for q, u in enumerate(mu.unc) if u.typeID in (2, 4) and u.uS_i == i][0]
            own.append(L.sensors[L.n_sensor[b]])
        if list(sysn or []) != own: out.append(("C25:systematic error sensors", "%r, expected %r" % (sysn, own)))
    elif syse is not None and len(syse): out.append(("C25:systematic errors without any", "%r" % syse))
    return out
