import numpy as np
from runtime import gen, gn_rt
from runtime.gn_rt import close
RULE = "one case = a random state of the preconditioner problem (random and random+systematic variables, sensors with different numbers of variables and parameters, reference sensors, several series); covariance factor, whitened residuals and Jacobian compared with their definitions"
FORMS = [(1,), (1, 2), (1, 2), (2,)]


def cases(rng, tier):
    for z in range(240 if tier == "quick" else 2400):
        yield gen.payload(rng, forms=FORMS[z % 4], consistent=z % 4 != 0, min_n=1 if z % 5 == 0 else 2, refsys=True)


def check(p):
    PC = gn_rt.pc_module()
    mu, L, F = gen.matchup(p)
    N, start, Nv, ns = gn_rt.normalised(mu, L)
    r = gen.rs(p, "z")
    z, a = gn_rt.state(p, N, r)
    N.values = z.astype(np.float32)
    snap = gen.snapshot(N)
    P = PC.PCAlgo(N)
    out = []
    M = L.cNm[-1]
    a0 = np.asarray(N.a, dtype=float)
    # covariance matrix of the whitened problem, by its definition
    def total(av):
        V = np.eye(M); T = np.zeros((M, ns)); Ja = np.zeros((M, len(av))); k = np.zeros(M)
        for s in range(len(L.Nm)):
            sl = slice(L.cNm[s], L.cNm[s + 1]); uK = np.asarray(mu.unck[s].uR, dtype=float)
            for pos in (0, 1):
                sg = 1 if pos else -1
                X = gn_rt.ref_X(mu, L, start, Nv, ns, z, s, pos)
                R, J, B, JB = gn_rt.ref_eval(mu, L, X, av, s, pos)
                k[sl] += sg * B / uK
                m = X.shape[1]
                JX = np.ones((len(R), 1)) if J is None else np.asarray(J, dtype=float)[:, :m]
                q = L.Im[s][pos]
                for b, (v, ss, pp) in enumerate(L.blocks):
                    if (ss, pp) != (s, pos): continue
                    u = mu.unc[b]
                    g = sg * JB * JX[:, v] / uK
                    V[sl, sl] += np.diag((g * np.asarray(u.uR, dtype=float)) ** 2)
                    if u.typeID == 2: T[sl, u.uS_i - 1] += g * np.asarray(u.uS, dtype=float)
                if J is not None:
                    par = [i for i, n in enumerate(mu.idx["parameter_sensor"]) if n == L.sensors[q]]
                    Ja[sl, par] = sg * (JB / uK)[:, None] * np.asarray(J, dtype=float)[:, m:m + len(par)]
        return V + T.dot(T.T), k, Ja
    V0 = total(a0)[0]
    LK = np.asarray(P.calc_LK(N), dtype=float)
    if LK.shape != (M, M): return [("C24:factor shape", "%r" % (LK.shape,))]
    sc = np.sqrt(np.outer(np.diag(V0), np.diag(V0)))
    if np.any(np.abs(np.triu(LK, 1)) > 1e-6 * np.sqrt(sc)): out.append(("C24:factor not lower triangular", "%r" % LK))
    if np.any(np.abs(LK.dot(LK.T) - V0) > 2e-4 * sc): out.append(("C24:covariance factor", "L L' = %r, expected %r" % (LK.dot(LK.T), V0)))
    Lr = np.linalg.cholesky(V0); P.LK = LK
    for av in (a, a0):
        V, k, Ja = total(av)
        f = np.asarray(P.get_f(av), dtype=float); J = np.asarray(P.get_Ja(av), dtype=float)
        df, wf, dJ, wJ = LK.dot(f), k - mu_ks(N), LK.dot(J), Ja
        if f.shape != wf.shape or J.shape != wJ.shape: return out + [("C24:shape", "%r %r" % (f.shape, J.shape))]
        mag = 1 + float(np.max(np.abs(wf))) + float(np.max(np.abs(k)))
        if np.any(np.abs(df - wf) > 5e-4 * mag): out.append(("C24:residual", "whitened back %r, expected %r" % (df, wf)))
        if wJ.size and np.any(np.abs(dJ - wJ) > 5e-4 * (1 + np.max(np.abs(wJ)))): out.append(("C24:Jacobian", "whitened back %r, expected %r" % (dJ, wJ)))
    if not out and p["seed"] % 2 and M >= len(a): out += solution(PC, N, M, r)
    for w in gen.diff_snapshot(snap, gen.snapshot(N)): out.append(("C24:input data modified", str(w)[:300]))
    return out


def solution(PC, N, M, r):
    """The returned parameters are the minimiser's last ones, the covariance is the inverse of the normal matrix there."""
    import contextlib, io
    seen, real = [], getattr(PC, "least_squares", None)
    if real is None: return []
    def recording(f, x0, *a, **k):
        x0 = np.array(x0, dtype=float)
        res = {"x": x0 + (1 if len(seen) < 1 + N.idx["cNm"][-1] % 2 else 0) * 0.01 * r.uniform(-1, 1, len(x0)), "cost": 0.0}     # any returned vector
        seen.append((x0, np.array(res["x"])))
        f(res["x"]); f(x0)                                                # the last point evaluated need not be the one returned
        return res
    Q = PC.PCAlgo(N)
    PC.least_squares = recording
    try:
        with contextlib.redirect_stdout(io.StringIO()): R = Q.runPC(tol=1e-6)
    finally: PC.least_squares = real
    out = []
    a, V = np.asarray(R[0], dtype=float), np.asarray(R[1], dtype=float)
    last = seen[-1][1]
    if a.shape != last.shape or not np.allclose(a, last, rtol=1e-5, atol=1e-6): return [("C24:solution", "returned parameters %r, the minimiser's last %r" % (a, last))]
    for (x0, x), (y0, y) in zip(seen, seen[1:]):
        if not np.allclose(y0, x, rtol=1e-5, atol=1e-6): out.append(("C24:repetition start", "starts at %r after %r" % (y0, x)))
    if np.linalg.norm(seen[-1][0] - seen[-1][1]) > 1e-6: out.append(("C24:stopped too early", "the last repetition still moved the parameters"))
    J = np.asarray(Q.get_Ja(np.asarray(last)), dtype=float)
    if M < len(a) or not len(a): return out
    s = np.linalg.svd(J, compute_uv=False)
    if s[-1] <= 0 or s[0] / s[-1] > 300: return out                       # the inverse is ill-determined in single precision
    W = np.linalg.inv(J.T.dot(J))
    if V.shape != W.shape: return out + [("C24:covariance shape", "%r" % (V.shape,))]
    d = np.sqrt(np.outer(np.diag(W), np.diag(W)))
    if np.any(np.abs(V - W) > 1e-2 * d): out.append(("C24:covariance", "%r, inverse of the normal matrix %r" % (V, W)))
    return out


def mu_ks(N): return np.asarray(N.ks, dtype=float)
