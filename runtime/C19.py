import numpy as np
from runtime import gen, boot
RULE = "one case = random match-up times (ordered or not, gaps up to days, repeats, jitter below half a scan line), scan-line interval, window size, weights and uncertainties, for every copy of the generator in the tools"


def cases(rng, tier):
    for z in range(300 if tier == "quick" else 4000):
        yield {"seed": rng.randrange(10 ** 9), "n": rng.randint(1, 12), "k": rng.choice([1, 2, 3, 5, 8]), "dt": rng.choice([0.5, 1.0 / 6, 2.6667, 0.003, 1.0, 6.4]),
               "mode": z % 4, "t0": rng.choice([0.0, 1e6, 4.2e8]), "gap": rng.random()}


def check(p):
    import importlib
    r = gen.rs(p, "w")
    n, k = p["n"], p["k"]
    lines = r.randint(0, 12 if p["gap"] < 0.55 else 200 if p["gap"] < 0.8 else 200000, n)
    if p["gap"] < 0.3: lines = np.sort(lines)
    jit = r.uniform(-0.2, 0.2, n) * p["dt"] if p["t0"] < 1e7 or p["dt"] > 0.1 else 0
    times = p["t0"] + lines * p["dt"] + jit
    # expected line of each match-up relative to the first, from the nominal lines (jitter below half a line)
    kw, w = {}, np.ones(k) / k
    if p["mode"] == 0: ku = r.uniform(0.1, 3, (n, k))
    elif p["mode"] == 1: ku = float(r.uniform(0.1, 3)); kw["kernel_size"] = k
    elif p["mode"] == 2: ku = r.uniform(0.1, 3, (n, k)); w = r.uniform(0.1, 1, k); kw["weights"] = w
    else: ku = float(r.uniform(0.1, 3)); w = r.uniform(0.1, 1, k); kw["weights"] = w
    out = []
    for name in ("generate_w_matrices", "pmh2fiduceo"):
        g = importlib.import_module(name).generate_rolling_average_w_matrix
        t0, k0 = times.copy(), np.array(ku, copy=True)
        W, u = g(times, p["dt"], ku, **kw)
        if not (np.array_equal(t0, times) and np.array_equal(k0, ku)): out.append(("C19:input modified", name))
        W = W.toarray(); u = np.asarray(u)
        cov = sorted(set(x + q for x in lines for q in range(k)))
        col = dict((c, i) for i, c in enumerate(cov))
        E = np.zeros((n, len(cov)))
        for i in range(n):
            for q in range(k): E[i, col[lines[i] + q]] = w[q]
        if W.shape != E.shape or not np.allclose(W, E, rtol=1e-6): out.append(("C19:matrix", "%s: %r, expected %r" % (name, W, E))); continue
        if kw.get("weights") is None and not np.allclose(W.sum(axis=1), 1): out.append(("C19:uniform weights", "%s: rows sum to %r" % (name, W.sum(axis=1))))
        if u.shape != (len(cov),): out.append(("C19:uncertainty length", "%s: %r for %d columns" % (name, u.shape, len(cov)))); continue
        for c in cov:
            cand = [ku] if isinstance(ku, float) else [ku[i, c - lines[i]] for i in range(n) if 0 <= c - lines[i] < k]
            if not any(abs(u[col[c]] - x) < 1e-6 for x in cand): out.append(("C19:uncertainty", "%s: column %d has %r, supplied %r" % (name, col[c], u[col[c]], cand)))
    # microwave wrapper: every uncertainty vector as long as its matrix
    if p["mode"] == 3:
        import MW_add_W_matrices as MW
        lines2 = r.randint(0, 9, n); times2 = p["t0"] + lines2 * p["dt"]
        i1, i2 = [("MHS", "MHS"), ("AMSUB", "MHS"), ("MHS", "AMSUB"), ("AMSUB", "AMSUB"), ("ref", "MHS"), ("ref", "AMSUB")][p["seed"] % 6]
        size = {"MHS": 9, "AMSUB": 11, "ref": 1}
        u1, u2 = r.uniform(0.1, 3, size[i1]), r.uniform(0.1, 3, size[i2])
        val, row, colv, nnz, cnt, uval, wu1, wu2, uu1, uu2 = MW.return_w_matrix_variables_MW(times, times2, p["dt"], u1, u2, w, i1, i2)
        starts = np.concatenate([[0], np.cumsum(cnt)]).astype(int); nst = np.concatenate([[0], np.cumsum(nnz)]).astype(int)
        for s, (wu, uu, uR) in enumerate(((wu1, uu1, u1), (wu2, uu2, u2))):
            if len(wu) != size[(i1, i2)[s]] or len(uu) != len(wu): out.append(("C19:microwave use", "%r" % wu)); continue
            for v in range(len(wu)):
                if (wu[v] == 0) != (uu[v] == 0): out.append(("C19:microwave pairing", "sensor %d variable %d" % (s + 1, v)))
                if wu[v] == 0: continue
                cv = sorted(set(x + q for x in ((lines, lines2)[s]) for q in range(k)))
                cc = colv[nst[wu[v] - 1]:nst[wu[v]]]
                if max(cc) + 1 != len(cv): out.append(("C19:microwave matrix", "sensor %d variable %d has %d columns, expected %d" % (s + 1, v, max(cc) + 1, len(cv))))
                if cnt[uu[v] - 1] != max(cc) + 1: out.append(("C19:microwave uncertainty length", "sensor %d variable %d: %d for %d columns" % (s + 1, v, cnt[uu[v] - 1], max(cc) + 1)))
                q = min(v, 2)
                if not np.allclose(uval[starts[uu[v] - 1]:starts[uu[v]]], uR[q]): out.append(("C19:microwave uncertainty", "sensor %d variable %d" % (s + 1, v)))
    return out
