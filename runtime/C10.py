import numpy as np
from runtime import gen, gn_rt
from runtime.gn_rt import close
RULE = "one case = a random state, preconditioner and vectors; adjointness, linearity, normal operator and preconditioner compared"


def cases(rng, tier): return gn_rt.cases(rng, 200 if tier == "quick" else 2000)


def check(p):
    mu, L, F = gen.matchup(p)
    N, start, Nv, ns = gn_rt.normalised(mu, L)
    r = gen.rs(p, "z")
    z, a = gn_rt.state(p, N, r)
    na, nv, nk = len(a), len(z), L.cNm[-1]
    S = np.tril(r.randn(na, na)) + np.eye(na) * 2
    G = gn_rt.solver(N, z, a, S)
    before = gen.snapshot(N)
    out = []
    x, x2 = gen.f32(r.randn(nv + na)), gen.f32(r.randn(nv + na))
    y, y2 = gen.f32(r.randn(nv + nk)), gen.f32(r.randn(nv + nk))
    kx, ky = x.copy(), y.copy()
    f = lambda v: np.asarray(G.get_JPx(v), dtype=float)
    t = lambda v: np.asarray(G.get_JPTx(v), dtype=float)
    A, B = f(x), t(y)
    if A.shape != (nv + nk,) or B.shape != (nv + na,): return [("C10:length", "%r %r" % (A.shape, B.shape))]
    # scale of the operator: single precision accumulation
    E = 3e-5 * (np.linalg.norm(A) * np.linalg.norm(y) + np.linalg.norm(B) * np.linalg.norm(x))
    if abs(y.dot(A) - B.dot(x)) > E: out.append(("C10:adjoint", "y.(JPx) = %r, (JP)'y.x = %r" % (y.dot(A), B.dot(x))))
    for g, u, v, nm in ((f, x, x2, "forward"), (t, y, y2, "transpose")):
        l, m = g(2 * u - 3 * v), 2 * g(u) - 3 * g(v)
        if np.linalg.norm(l - m) > 1e-4 * (np.linalg.norm(l) + np.linalg.norm(g(u)) * 2 + 3 * np.linalg.norm(g(v))): out.append(("C10:linear " + nm, "%r, expected %r" % (l, m)))
    H = lambda v: np.asarray(G.calc_Hx(v), dtype=float)
    Hx, Hx2 = H(x), H(x2)
    E = 3e-5 * (np.linalg.norm(Hx) * np.linalg.norm(x2) + np.linalg.norm(Hx2) * np.linalg.norm(x) + np.linalg.norm(A) ** 2)
    if abs(x2.dot(Hx) - Hx2.dot(x)) > E * 3: out.append(("C10:symmetric", "%r, %r" % (x2.dot(Hx), Hx2.dot(x))))
    if abs(x.dot(Hx) - A.dot(A)) > E * 3: out.append(("C10:normal operator", "x.Hx = %r, |JPx|^2 = %r" % (x.dot(Hx), A.dot(A))))
    px, pt = np.asarray(G.calc_Px(x)), np.asarray(G.calc_Px(x, transpose=True))
    if not close(px, np.append(x[:nv], S.dot(x[nv:])), 1e-5): out.append(("C10:preconditioner", "%r" % px))
    if not close(pt, np.append(x[:nv], S.T.dot(x[nv:])), 1e-5): out.append(("C10:preconditioner transpose", "%r" % pt))
    for g, u, nm in ((f, x, "forward"), (t, y, "transpose")):
        for sc in (1e6, 1e-6):
            us = gen.f32(u * sc); k0 = us.copy()
            l, m = g(us), sc * g(u)
            if np.linalg.norm(l - m) > 1e-4 * np.linalg.norm(m) + 1e-30: out.append(("C10:linear " + nm, "scaled by %g: %r, expected %r" % (sc, l, m)))
            if not np.array_equal(us, k0): out.append(("C10:vectors modified", "scaled by %g" % sc))
    if not (np.array_equal(x, kx) and np.array_equal(y, ky)): out.append(("C10:vectors modified", ""))
    ch = gen.diff_snapshot(before, gen.snapshot(N))
    if ch: out.append(("C10:data modified", "%r" % ch))
    return out
