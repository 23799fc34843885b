import contextlib, importlib, io, sys
import numpy as np
from runtime import boot, gen
RULE = "one case = one random linear operator (tall, wide, square, rank deficient, orthogonal, with repeated singular values; MINRES: positive definite) and right-hand side (general, in the range, in the left null space, zero, an eigenvector) solved by the real solver, with random tolerances and iteration limit; solver objects used again; everything reported compared with the dense matrix"
PK = "harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv."


def cases(rng, tier):
    for z in range(400 if tier == "quick" else 6000):
        yield {"kind": ("lsmr", "lsmr", "minres")[z % 3], "seed": rng.randrange(10 ** 9), "m": rng.randint(1, 9), "n": rng.randint(1, 9), "cond": rng.choice([0, 0.5, 1.5]), "form": rng.choice(["", "", "", "rank", "same", "diag"]),
               "rhs": rng.choice(["", "", "", "range", "null", "zero", "vector"]), "tol": rng.choice([0, 1e-12, 1e-8, 1e-3]), "btol": rng.choice([0, 1e-8, 1e-3]), "lim": rng.choice([1, 2, 3, 5, 60, 60, 60, 60]), "etol": rng.choice([0, 0, 1e-6]),
               "scale": rng.choice([0, 0, -4, 5])}


class Op(object):
    """The operator as an object with a product and an adjoint."""
    def __init__(self, M): self.M, self.shape, self.dtype = M, M.shape, M.dtype
    def __mul__(self, v): return self.M.dot(v)
    @property
    def H(self): return Op(self.M.T.copy())
    T = H


def solver(mod, cls):
    d = PK.rstrip(".").replace(".", "/")
    p = "%s/harmonisation_eiv/%s" % (boot.TREE, d)
    if p not in sys.path: sys.path.insert(0, p)
    return getattr(importlib.import_module(PK + mod), cls)


def quietly(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)


def problem(p):
    r = gen.rs(p, "krylov")
    m, n = (p["m"], p["n"]) if p["kind"] == "lsmr" else (p["n"], p["n"])
    q = min(m, n)
    U, V = np.linalg.qr(r.normal(size=(m, m)))[0], np.linalg.qr(r.normal(size=(n, n)))[0]
    s = 10.0 ** r.uniform(-p["cond"], 0, q)
    if p["form"] == "same": s[:] = s[0]
    if p["form"] == "rank" and q > 1 and p["kind"] == "lsmr": s[r.randint(0, q)] = 0
    if p["form"] == "diag": U, V = np.eye(m), np.eye(n)
    s = s * 10.0 ** p["scale"]
    if p["kind"] == "minres": U = V
    M = (U[:, :q] * s).dot(V[:, :q].T)
    if p["kind"] == "minres": M = (M + M.T) / 2
    b = r.normal(size=m)
    if p["rhs"] == "range": b = M.dot(r.normal(size=n))
    if p["rhs"] == "vector": b = U[:, r.randint(0, m)] * 3.0
    if p["rhs"] == "zero": b = np.zeros(m)
    if p["rhs"] == "null": b = b - U[:, :q][:, s > 0].dot(U[:, :q][:, s > 0].T.dot(b))
    return M, b, s


def check(p):
    M, b, s = problem(p)
    return (lsmr if p["kind"] == "lsmr" else minres)(p, M, b, s)


def far(x, y, tol): return not (np.all(np.isfinite(x)) and np.all(np.abs(np.asarray(x) - np.asarray(y)) <= tol))


def lsmr(p, M, b, s):
    L = solver("pykrylov_lsmr", "LSMRFramework")
    out, keep, nb, nM = [], b.copy(), np.linalg.norm(b), s.max()
    S = L(Op(M))
    kw = dict(damp=0, atol=p["tol"], btol=p["btol"], conlim=1e8, itnlim=p["lim"], show=False, etol=p["etol"])
    res = quietly(S.solve, b, **kw)
    if not np.array_equal(b, keep): out.append(("C27:lsmr right-hand side modified", "%r" % (b - keep)))
    b = keep
    x, istop, itn, normr, normar, normA, condA, normx = res
    if getattr(S, "x", None) is None or np.shape(S.x) != (M.shape[1],) or far(S.x, x, 0): out.append(("C27:lsmr solution left in the object", "%r, returned %r" % (getattr(S, "x", None), x)))
    if np.shape(x) != (M.shape[1],) or not np.all(np.isfinite(x)): return out + [("C27:lsmr solution", "%r" % (x,))]
    r = b - M.dot(x)
    g = M.T.dot(r)
    ok = nM and s[s > 0].min() / nM > 0.02
    # (a right-hand side orthogonal to the range up to rounding: nothing accurate to report)
    tiny = np.linalg.norm(M.T.dot(b)) < 1e-8 * nM * nb
    if not tiny:
        if far(normr, np.linalg.norm(r), 1e-7 * nb): out.append(("C27:lsmr residual norm", "%r, is %r" % (normr, np.linalg.norm(r))))
        if far(normar, np.linalg.norm(g), 1e-7 * nM * nb): out.append(("C27:lsmr norm of A'r", "%r, is %r" % (normar, np.linalg.norm(g))))
        if istop == 1 and np.linalg.norm(r) > (p["btol"] * nb + p["tol"] * normA * np.linalg.norm(x)) * (1 + 1e-6) + 1e-9 * nb: out.append(("C27:lsmr reason 1", "residual %r" % np.linalg.norm(r)))
        if istop == 2 and np.linalg.norm(g) > p["tol"] * normA * np.linalg.norm(r) * (1 + 1e-6) + 1e-9 * nM * nb: out.append(("C27:lsmr reason 2", "norm of A'r %r" % np.linalg.norm(g)))
        best = np.linalg.lstsq(M, b, rcond=1e-10)[0]
        if ok and istop in (1, 2, 4, 5) and p["tol"] <= 1e-8 and (istop != 1 or p["btol"] <= 1e-8) and far(x, best, 1e-3 * (1e-12 + np.linalg.norm(best)) + 1e-7 * nb / nM): out.append(("C27:lsmr solution", "%r, expected %r (reason %r)" % (x, best, istop)))
        if istop == 8 and p["etol"] == 0: out.append(("C27:lsmr reason 8", "direct error tolerance 0"))
        if ok and istop == 7 and itn >= 60: out.append(("C27:lsmr no convergence", "%r after %r iterations" % (x, itn)))
    if 0 < itn <= np.sum(s > 0) and p["tol"] >= 1e-8 and normA > np.linalg.norm(M) * 1.001: out.append(("C27:lsmr norm of the operator", "%r, is at most %r" % (normA, np.linalg.norm(M))))
    if 0 < itn <= np.sum(s > 0) and p["tol"] >= 1e-8 and not tiny and condA > nM / s[s > 0].min() * 1.001: out.append(("C27:lsmr condition estimate", "%r, is at most %r" % (condA, nM / s[s > 0].min())))
    if far(normx, np.linalg.norm(x), 1e-9 * np.linalg.norm(x)): out.append(("C27:lsmr norm of x", "%r, is %r" % (normx, np.linalg.norm(x))))
    if itn > p["lim"]: out.append(("C27:lsmr iteration limit", "%d iterations, limit %d" % (itn, p["lim"])))
    if istop not in range(9) or istop == 7 and itn != p["lim"] or istop == 0 and not tiny and nb > 0: out.append(("C27:lsmr reason", "%r after %r iterations" % (istop, itn)))
    # the same object again, after another right-hand side (a step that starts at the solution must not return the one before)
    for c in (2.0 * b, np.zeros_like(b), b):
        again = quietly(S.solve, c.copy(), **kw)
        if np.array_equal(c, b) and far(again[0], x, 0) or not c.any() and again[0].any() or far(S.x, again[0], 0): out.append(("C27:lsmr used again", "%r, expected %r" % (again[0], x)))
    lim = quietly(S.solve, b.copy(), **dict(kw, itnlim=1))
    if lim[2] > 1: out.append(("C27:lsmr iteration limit", "%d iterations, limit 1" % lim[2]))
    return out


def minres(p, M, b, s):
    K = solver("pykrylov_minres", "Minres")
    out, keep, nb, nM = [], b.copy(), np.linalg.norm(b), s.max()
    kw = dict(rtol=p["tol"], itnlim=p["lim"], show=False, etol=p["etol"])
    S = K(Op(M))
    quietly(S.solve, b, **kw)
    if not np.array_equal(b, keep): out.append(("C27:minres right-hand side modified", "%r" % (b - keep)))
    b, x, istop, itn = keep, S.x, S.istop, S.itn
    if np.shape(x) != b.shape or not np.all(np.isfinite(x)): return out + [("C27:minres solution", "%r" % (x,))]
    r = b - M.dot(x)
    ok = s.min() / nM > 0.02
    if nb == 0:
        if x.any() or S.rnorm != 0 or istop != 0: out.append(("C27:minres zero right-hand side", "%r, reason %r" % (x, istop)))
    else:
        if far(S.rnorm, np.linalg.norm(r), 1e-7 * nb): out.append(("C27:minres residual norm", "%r, is %r" % (S.rnorm, np.linalg.norm(r))))
        if itn <= len(b) and p["tol"] >= 1e-8 and S.Anorm > np.linalg.norm(M) * 1.001: out.append(("C27:minres norm of the operator", "%r, is at most %r" % (S.Anorm, np.linalg.norm(M))))
        if far(S.ynorm, np.linalg.norm(x), 1e-9 * np.linalg.norm(x)): out.append(("C27:minres norm of x", "%r, is %r" % (S.ynorm, np.linalg.norm(x))))
        before, one = np.zeros_like(x), K(Op(M))
        if itn > 1:
            quietly(one.solve, b.copy(), **dict(kw, itnlim=itn - 1))
            before = one.x
        g = np.linalg.norm(M.dot(b - M.dot(before)))
        if far(S.Arnorm, g, 1e-7 * nM * nb): out.append(("C27:minres norm of A r", "%r, that of the iterate before is %r" % (S.Arnorm, g)))
        best = np.linalg.solve(M, b)
        if ok and (istop in (1, 2, 3, 4) and p["tol"] <= 1e-8 or istop == -1) and far(x, best, 1e-3 * np.linalg.norm(best)): out.append(("C27:minres solution", "%r, expected %r (reason %r)" % (x, best, istop)))
        if istop == 10 and p["etol"] == 0: out.append(("C27:minres reason 10", "direct error tolerance 0"))
        if istop == 1 and S.rnorm > p["tol"] * S.Anorm * S.ynorm * (1 + 1e-6) + 1e-12 * nb: out.append(("C27:minres reason 1", "residual %r" % S.rnorm))
        if istop == 0 or istop not in range(-1, 11) or istop == 6 and itn != p["lim"]: out.append(("C27:minres reason", "%r after %r iterations" % (istop, itn)))
        if ok and istop == 6 and itn >= 60 and p["tol"] > 0: out.append(("C27:minres no convergence", "%r after %r iterations" % (x, itn)))
    if itn > p["lim"]: out.append(("C27:minres iteration limit", "%d iterations, limit %d" % (itn, p["lim"])))
    if bool(S.converged) != (istop in (1, 2, 3, 4, 10)): out.append(("C27:minres converged", "%r for reason %r" % (S.converged, istop)))
    if far(S.bestSolution, x, 0) or S.residNorm != S.rnorm or S.nMatvec != itn: out.append(("C27:minres results", "%r %r" % (S.residNorm, S.nMatvec)))
    for c in (2.0 * b, np.zeros_like(b), b):
        quietly(S.solve, c.copy(), **kw)
        if np.array_equal(c, b) and far(S.x, x, 0) or not c.any() and S.x.any(): out.append(("C27:minres used again", "%r, expected %r" % (S.x, x)))
    return out
