import numpy as np
from runtime import gen, gn_rt
from runtime.gn_rt import close
RULE = "one case = a random normalised match-up and state (all forms, models using constants, track indices and times); the whole residual vector compared with its definition"


def cases(rng, tier): return gn_rt.cases(rng, 260 if tier == "quick" else 2500)


def check(p):
    mu, L, F = gen.matchup(p)
    N, start, Nv, ns = gn_rt.normalised(mu, L)
    z, a = gn_rt.state(p, N, gen.rs(p, "z"))
    xyza = np.append(z, a)
    G = gn_rt.solver(N)
    before, keep = gen.snapshot(N), xyza.copy()
    f = G.calc_f(xyza, N)
    want = gn_rt.ref_f(mu, N, L, start, Nv, ns, z, a)
    nv = len(z)
    out = []
    if np.shape(f) != want.shape: return [("C09:length", "%r, expected %r" % (np.shape(f), want.shape))]
    if not close(f[:nv], want[:nv]): out.append(("C09:variables", "%r, expected %r" % (f[:nv], want[:nv])))
    for s in range(len(L.Nm)):
        sl = slice(nv + L.cNm[s], nv + L.cNm[s + 1])
        # differences of large numbers in single precision: absolute scale of the measurands
        sc = max(1.0, float(np.max(np.abs(want[sl] + N.ks[L.cNm[s]:L.cNm[s + 1]]))))
        B = [gn_rt.ref_eval(mu, L, gn_rt.ref_X(mu, L, start, Nv, ns, z, s, q), a, s, q)[2] for q in (0, 1)]
        sc = max(sc, float(np.max(np.abs(B) / np.asarray(mu.unck[s].uR))))
        if np.any(np.abs(np.asarray(f[sl], dtype=float) - want[sl]) > 3e-5 * sc): out.append(("C09:adjustment factors", "series %d: %r, expected %r" % (s + 1, f[sl], want[sl])))
    # states far from the data (outliers, early iterations)
    wild = gen.f32(xyza * 10.0 ** gen.rs(p, "wild").uniform(-6, 6, len(xyza)))
    kw = wild.copy()
    fw = np.asarray(G.calc_f(wild, N), dtype=float)
    wv = wild[:nv].astype(float) - N.values.astype(float)
    if fw.shape == want.shape and np.any(np.abs(fw[:nv] - wv) > 1e-5 * (np.abs(wild[:nv]) + np.abs(N.values))): out.append(("C09:variables far from the data", "%r, expected %r" % (fw[:nv], wv)))
    if not np.array_equal(kw, wild): out.append(("C09:state modified", "far from the data: %r became %r" % (kw[kw != wild], wild[kw != wild])))
    if not np.array_equal(keep, xyza): out.append(("C09:state modified", ""))
    ch = gen.diff_snapshot(before, gen.snapshot(N))
    if ch: out.append(("C09:data modified", "%r" % ch))
    return out
