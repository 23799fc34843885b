import numpy as np
from runtime import gen, gn_rt
from runtime.gn_rt import close
RULE = "one case = a random normalised state; the three de-normalisation routines compared with each other and with the definition for every series and sensor"


def cases(rng, tier): return gn_rt.cases(rng, 240 if tier == "quick" else 2500)


def check(p):
    S = gn_rt.modules()
    mu, L, F = gen.matchup(p)
    N, start, Nv, ns = gn_rt.normalised(mu, L)
    r = gen.rs(p, "z")
    z, a = gn_rt.state(p, N, r)
    xyza = np.append(z, a).astype(np.float32)
    G = gn_rt.solver(N)
    cy = S["GN"].unconvert_Xs
    N.values = z.astype(np.float32)
    U = S["T"]().reverse(N)
    keep = xyza.copy()
    out = []
    i32 = lambda x: np.asarray(x, dtype=np.int32)
    for s in range(len(L.Nm)):
        for pos in (0, 1):
            q = L.Im[s][pos]
            want = gn_rt.ref_X(mu, L, start, Nv, ns, z, s, pos)
            where = "series %d position %d" % (s + 1, pos + 1)
            got = G.unconvert_Xs(xyza, N.unc, N.idx, N._original_idx, q, s + 1)
            if not close(got, want): out.append(("C08:solver", "%s: %r, expected %r" % (where, got, want)))
            cols = [U.values[L.idx[b]:L.idx[b + 1]] for b, t in enumerate(L.blocks) if t[1:] == (s, pos)]
            if not close(np.array(cols).T, want): out.append(("C08:inverse transform", "%s: %r, expected %r" % (where, np.array(cols).T, want)))
            if cy is not None:
                got = cy(xyza, i32(N.idx["n_sensor"]), i32(N.idx["idx"]), i32(N._original_idx["idx"]), i32(N.idx["n_cov"]), i32(N.idx["n_mu"]), i32(N.idx["N_var"]),
                         list(N.unc), list(N.w_matrices), list(N.u_matrices), q, s + 1, L.ms[q])
                if not close(got, want): out.append(("C08:compiled", "%s: %r, expected %r" % (where, got, want)))
    if not np.array_equal(keep, xyza): out.append(("C08:state modified", "de-normalising modified the state"))
    return out
