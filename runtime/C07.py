import numpy as np
import scipy.sparse as sp
from runtime import gen, gn_rt
from runtime.gn_rt import close
RULE = "one case = a random match-up with any mix of correlation forms, transformed, compared block by block with the definition, and undone (also from perturbed states)"


def invertible(w):
    """Row-normalised copy of a weighting matrix if each row uses a variable that no earlier row uses."""
    d = w.toarray().astype(float)
    seen = np.zeros(d.shape[1], dtype=bool)
    for r in d:
        if not np.any((r != 0) & ~seen): return None
        seen |= r != 0
    return sp.csr_matrix((d / d.sum(axis=1)[:, None]).astype(np.float32))


def weighted_back(p, T):
    """Weighted blocks come back, too, where their matrix determines the underlying variables row by row."""
    mu, L, F = gen.matchup(p)
    ws = [invertible(w) for w in mu.w_matrices]
    if not any(w is not None for w in ws): return []
    mu.w_matrices = [w if w is not None else v for w, v in zip(ws, mu.w_matrices)]
    N = T().run(mu)
    U = T().reverse(N)
    out = []
    if len(U.values) != L.idx[-1]: return [("C07:undo length", "%d" % len(U.values))]
    for b, u in enumerate(mu.unc):
        if u.typeID in (3, 4) and ws[u.w_i] is not None:
            x, y = U.values[L.idx[b]:L.idx[b + 1]], mu.values[L.idx[b]:L.idx[b + 1]]
            k0 = N.idx["idx"][b]
            size = np.abs(ws[u.w_i].toarray()).dot(np.abs(mu.u_matrices[u.u_i] * N.values[k0:k0 + ws[u.w_i].shape[1]]))
            if not np.all(np.abs(x - y) <= 1e-5 * (size + np.abs(y))): out.append(("C07:weighted values do not come back", "block %d (form %d): %r, expected %r" % (b, u.typeID, x, y)))
    return out


def cases(rng, tier): return gn_rt.cases(rng, 240 if tier == "quick" else 2500)


def check(p):
    T = gn_rt.modules()["T"]
    mu, L, F = gen.matchup(p)
    before = gen.snapshot(mu)
    out = []
    N = T().run(mu)
    ch = gen.diff_snapshot(before, gen.snapshot(mu))
    if ch: out.append(("C07:input modified", "transforming modified %r" % ch))
    ref, start, Nv, ns = gn_rt.normalised(mu, L)
    for k in ("N_var", "idx", "Nm", "cNm", "Im", "n_cov", "n_mu", "n_sensor", "sensors", "sensor_ms", "parameter_sensor"):
        if not gen.same(list(N.idx[k]), list(ref.idx[k])): out.append(("C07:index " + k, "%r, expected %r" % (N.idx[k], ref.idx[k])))
    if len(N.values) != len(ref.values): return out + [("C07:length", "%d values, expected %d" % (len(N.values), len(ref.values)))]
    for b, u in enumerate(mu.unc):
        if u.typeID in (1, 2) and not close(N.values[start[b]:start[b] + Nv[b]], ref.values[start[b]:start[b] + Nv[b]], 1e-5): out.append(("C07:values", "block %d (form %d): %r, expected %r" % (b, u.typeID, N.values[start[b]:start[b] + Nv[b]], ref.values[start[b]:start[b] + Nv[b]])))
    if np.any(N.values[start[-1]:] != 0): out.append(("C07:systematic errors", "start at %r" % N.values[start[-1]:]))
    if not close(N.ks, ref.ks, 1e-5): out.append(("C07:adjustment factors", "%r, expected %r" % (N.ks, ref.ks)))
    KEEP = ("a", "sensor_model", "sensor_model_constant", "adjustment_model", "unc", "unck", "w_matrices", "u_matrices", "across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2", "time1", "time2")
    sn = gen.snapshot(N)
    for k in KEEP:
        if not gen.same(sn.get(k), before.get(k)): out.append(("C07:passed through", "%s changed by the transformation" % k))
    # undo far from the data
    wd = 10.0 ** gen.rs(p, "wild").uniform(-5, 5, len(ref.values))
    keepv = ref.values.copy()
    ref.values = (ref.values * wd).astype(np.float32)
    kw = ref.values.copy()
    U = T().reverse(ref)
    if not np.array_equal(kw, ref.values): out.append(("C07:undo modified its input", "values far from the data"))
    z = kw.astype(float)
    if len(U.values) == L.idx[-1]:
        for b, (v, s, pos) in enumerate(L.blocks):
            u = mu.unc[b]
            if u.typeID > 2: continue
            x = z[start[b]:start[b] + Nv[b]] * u.uR
            sy = z[start[-1] + u.uS_i - 1] * np.asarray(u.uS, dtype=float) if u.typeID == 2 else 0.0
            if np.any(np.abs(U.values[L.idx[b]:L.idx[b + 1]] - (x + sy)) > 1e-5 * (np.abs(x) + np.abs(sy))): out.append(("C07:undo values", "block %d (form %d), far from the data" % (b, u.typeID)))
    ref.values = keepv
    out += weighted_back(p, T)
    # undo, straight after and from another state
    weighted = any(u.typeID > 2 for u in mu.unc)
    r = gen.rs(p, "z")
    for rep in (0, 1):
        M = N if rep == 0 else ref
        if rep: M.values = (M.values + r.randn(len(M.values))).astype(np.float32); M.ks = M.ks + r.randn(len(M.ks))
        bz = gen.snapshot(M)
        U = T().reverse(M)
        ch = gen.diff_snapshot(bz, gen.snapshot(M))
        if ch: out.append(("C07:undo modified its input", "%r" % ch))
        z = M.values.astype(float)
        if len(U.values) != L.idx[-1]: out.append(("C07:undo length", "%d" % len(U.values))); continue
        for b, (v, s, pos) in enumerate(L.blocks):
            X = gn_rt.ref_X(mu, L, start, Nv, ns, z, s, pos)[:, v]
            if not close(U.values[L.idx[b]:L.idx[b + 1]], X, 1e-4): out.append(("C07:undo values", "block %d (form %d): %r, expected %r" % (b, mu.unc[b].typeID, U.values[L.idx[b]:L.idx[b + 1]], X)))
            elif rep == 0 and mu.unc[b].typeID < 3 and not close(U.values[L.idx[b]:L.idx[b + 1]], mu.values[L.idx[b]:L.idx[b + 1]], 1e-4): out.append(("C07:round trip", "block %d" % b))
        kk = np.concatenate([np.asarray(M.ks[L.cNm[s]:L.cNm[s + 1]]) * mu.unck[s].uR for s in range(len(L.Nm))])
        if not close(U.ks, kk, 1e-5): out.append(("C07:undo adjustment factors", "%r, expected %r" % (U.ks, kk)))
        sn = gen.snapshot(U)
        for k in KEEP:
            if not gen.same(sn.get(k), before.get(k)): out.append(("C07:undo passed through", "%s changed" % k))
        for k in ("N_var", "idx", "cNm"):
            if not gen.same(list(U.idx[k]), getattr(L, k)): out.append(("C07:undo index", "%s %r" % (k, U.idx[k])))
    return out
