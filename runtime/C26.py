import os, re, shutil, tempfile, importlib
import numpy as np
from runtime import gen, gn_rt, boot
RULE = "one case = a solver state whose covariance matrix is computed by parallel workers (in-process stand-in for the pool, and real processes), or a random set of stored elements (1 to 25 parameters) combined later; every element against the one of its own parameters"


def cases(rng, tier):
    for z in range(90 if tier == "quick" else 900):
        kind = "combine" if z % 2 else "matrix"
        p = gen.payload(rng, forms=gn_rt.FORMS[z % len(gn_rt.FORMS)], max_series=2, max_n=3, max_m=2, min_n=2)
        p["kind"] = kind
        p["N"] = rng.choice([1, 2, 3, 9, 10, 11, 12, 20, 25])
        p["real_pool"] = z in (0, 6, 46)
        p["synthetic"] = z % 4 == 0
        yield p


class FakePool(object):
    """Evaluates the map in this process, in scrambled order (as workers may)."""

    def __init__(self, *a, **k): pass

    def map(self, f, xs, *a, **k):
        xs = list(xs); out = [None] * len(xs)
        for q in np.random.RandomState(5).permutation(len(xs)): out[q] = f(xs[q])
        return out

    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None

    def __enter__(self): return self

    def __exit__(self, *a): return False


class ExactMinres(object):
    """Contract of the inner symmetric solver (C27, trusted): x solves H x = rhs in the least-squares sense."""

    def __init__(self, op, *a, **k): self.op, self.x = op, None

    def solve(self, rhs, *a, **k):
        n = len(rhs)
        H = np.array([np.asarray(self.op.matvec(e), dtype=float).reshape(-1) for e in np.eye(n)]).T
        self.x = np.linalg.lstsq((H + H.T) / 2, np.asarray(rhs, dtype=float), rcond=None)[0]


def element_kernel(ij, *a, **k): return 1.0 + 7 * ij[0] + 0.31 * ij[1] + 0.01 * ij[0] * ij[1]


def check(p):
    out = []
    r = gen.rs(p, "z")
    if p["kind"] == "combine":
        gn_rt.modules()
        import harmonisation as H
        for nm in ("HarmonisationEIV", "Sample2Ind", "HarmonisationResult"):      # names the package's own __init__ leaves commented out
            if not hasattr(H, nm): setattr(H, nm, object)
        mod = importlib.import_module("harmonisation.tools.HarmonisationOp")
        d = tempfile.mkdtemp(prefix="jobs[1,2]" if p["seed"] % 3 == 0 else "jobs")
        d2 = os.path.join(d, "x"); os.mkdir(d2)
        try:
            n = p["N"]; E = r.randn(n, n)
            for i, j in r.permutation([(i, j) for i in range(n) for j in range(n)]):
                np.savetxt(os.path.join(d2, "parameter_covariance_matrix[%d,%d].dat" % (i, j)), np.array([E[i, j]]))
            op = mod.HarmonisationOp()
            # the glob pattern would take brackets of the directory name as a wildcard: only plain directories are checked
            if "[" in d2:
                d3 = tempfile.mkdtemp(prefix="plain"); shutil.rmtree(d3); shutil.move(d2, d3); d2 = d3
            op.temp_directory = d2
            V = np.asarray(op.combine_parameter_covariance_ij(), dtype=float)
            if V.shape != (n, n): return [("C26:combined shape", "%r for %d parameters" % (V.shape, n))]
            W = (E + E.T) / 2
            if not np.allclose(V, W, rtol=1e-6, atol=1e-9):
                k = np.argwhere(~np.isclose(V, W, rtol=1e-6))[0]
                out.append(("C26:combined element", "element %r of %d parameters is %r, stored %r" % (tuple(k), n, V[tuple(k)], W[tuple(k)])))
            shutil.rmtree(d2, ignore_errors=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return out
    GN = gn_rt.modules()["GN"]
    mu, L, F = gen.matchup(p)
    N, start, Nv, ns = gn_rt.normalised(mu, L)
    z, a = gn_rt.state(p, N, r)
    na = len(a)
    if na == 0: return []
    A = r.randn(na, na); V0 = A.dot(A.T) / na + np.eye(na)
    G = gn_rt.solver(N, z.astype(np.float32), a.astype(np.float32), np.linalg.cholesky(V0))
    old, oldM = GN.Pool, getattr(GN, "Minres", None)
    if len(z) + na > 8 or p["seed"] % 2: GN.Minres = ExactMinres
    try: return matrix(p, GN, G, z, na, out)
    finally: GN.Pool, GN.Minres = old, oldM


def matrix(p, GN, G, z, na, out):
    if p["synthetic"]:
        # more parameters than the model has: the assembly only, over a known element function
        n = p["N"]; G.HData.a = np.zeros(n, dtype=np.float32)
        G.calculate_parameter_covariance_matrix_ij = element_kernel
        E = np.array([[element_kernel((i, j)) for j in range(n)] for i in range(n)])
    else:
        E = np.array([[float(np.asarray(G.calculate_parameter_covariance_matrix_ij([i, j])).reshape(-1)[0]) for j in range(na)] for i in range(na)])
        # each element is that of (S S') of the inverse of the preconditioned normal matrix
        n = na
        H = np.array([np.asarray(G.calc_Hx(e), dtype=float) for e in np.eye(len(z) + na)]).T
        if np.linalg.cond(H) < 1e5:
            X = np.linalg.inv((H + H.T) / 2)
            nv = len(z); want = G.S.dot(X[nv:, nv:]).dot(G.S.T)
            if not np.allclose(E, want, rtol=2e-2, atol=2e-3 * np.max(np.abs(want))): out.append(("C26:element value", "%r, from the dense normal matrix %r" % (E, want)))
    if not p["real_pool"]: GN.Pool = FakePool
    V = np.asarray(G.calculate_parameter_covariance_matrix(), dtype=float)
    if V.shape != E.shape: return out + [("C26:matrix shape", "%r" % (V.shape,))]
    W = (E + E.T) / 2
    tol = 1e-5 * (np.max(np.abs(W)) + 1e-12)
    if np.max(np.abs(V - V.T)) > tol: out.append(("C26:not symmetric", "%r" % V))
    if np.max(np.abs(V - W)) > tol * 10: out.append(("C26:matrix element", "%r, elements %r" % (V, W)))
    return out
