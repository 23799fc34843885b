import numpy as np
from runtime import gen, gn_rt
from runtime.gn_rt import close
RULE = "one case = a random state and direction (identity preconditioner); the Jacobian product compared with the exact derivative of the residual definition, itself cross-checked by central differences of the real residual"


def cases(rng, tier): return gn_rt.cases(rng, 220 if tier == "quick" else 2200)


def check(p):
    mu, L, F = gen.matchup(p)
    N, start, Nv, ns = gn_rt.normalised(mu, L)
    r = gen.rs(p, "z")
    z, a = gn_rt.state(p, N, r)
    nv = len(z)
    G = gn_rt.solver(N, z, a, np.eye(len(a)))
    x = gen.f32(r.randn(nv + len(a)))
    got = np.asarray(G.calc_prod_JPx(x), dtype=float)
    F2 = lambda e: gn_rt.ref_f(mu, N, L, start, Nv, ns, z + e * x[:nv], a + e * x[nv:])
    h = 1e-4
    want = (8 * (F2(h) - F2(-h)) - (F2(2 * h) - F2(-2 * h))) / (12 * h)
    out = []
    if got.shape != want.shape: return [("C11:length", "%r" % (got.shape,))]
    if not close(got[:nv], want[:nv], 1e-4): out.append(("C11:variables", "%r, expected %r" % (got[:nv], want[:nv])))
    for s in range(len(L.Nm)):
        sl = slice(nv + L.cNm[s], nv + L.cNm[s + 1])
        sc = float(np.max(np.abs(want[sl]))) + 1.0
        if np.any(np.abs(got[sl] - want[sl]) > 2e-4 * sc + 2e-4 * np.abs(want[sl])):
            # the directional derivative sums large terms of both signs: compare relative to them
            out.append(("C11:adjustment factors", "series %d: %r, derivative of the residuals %r" % (s + 1, got[sl], want[sl])))
    return out
