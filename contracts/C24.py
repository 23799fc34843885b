"""Preconditioner problem: residuals, Jacobian and covariance factor, for random and random+systematic variables.

cholesky(V) and solve(L, b) are contracts on numpy: the factor of its argument, and the solution for its two arguments; what is
proved is that V is the total covariance of the whitened adjustment-factor misfits and b the misfit (resp. its Jacobian)."""
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.instrument import Declared
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M

TRUSTED = M.TRUSTED + ["numpy.linalg.cholesky(V): the lower triangular L with L L' = V; numpy.linalg.solve(L, b): the x with L x = b",
                       "scipy.optimize.least_squares: any parameter vector (what it minimises, from where and with which Jacobian is proved)",
                       "scipy.linalg.qr(J): R upper triangular with J'J = R'R; numpy.linalg.lstsq(R, B): the X with R X = B for such R"]
ASSUMPTIONS = ["solution and covariance: at least as many match-ups as parameters and a Jacobian of full column rank", "forms random and random+systematic (what Sample2Ind leaves of a match-up data set)", "float32 arithmetic treated as exact"]
FN = ["pc_algo.PCAlgo.%s", "GN_algo.GNAlgo.calc_R", "MatchUp.getSensorTime", "MatchUp.getSensorAcrossTrackIndex", "MatchUp.getSensorAlongTrackIndex"]


def structures(tier):
    R = (1, 0, 0, [1])
    S = [("ref-sensor", [R, (2, 2, 1, [1, 2])], [(0, 1)], (1, 1, 1)),
         ("ref with systematic error", [(1, 0, 0, [2]), (2, 1, 0, [2, 1])], [(0, 1), (0, 1)], (1, 0, 0)),
         ("chain, shared systematic errors", [R, (2, 2, 0, [1, 2]), (3, 1, 2, [2, 1, 2])], [(0, 1), (1, 2), (2, 1)], (1, 1, 1)),
         ("ref second", [(3, 1, 0, [2, 1, 1]), R], [(0, 1), (1, 0)], (0, 0, 1)),
         ("differing numbers of variables", [(1, 2, 1, [2]), (3, 1, 0, [1, 2, 2])], [(0, 1), (1, 0)], (1, 0, 0))]
    if tier == "thorough":
        S.append(("two references", [R, (2, 3, 1, [1, 2]), (1, 0, 0, [2])], [(0, 1), (1, 2), (2, 1)], (1, 1, 0)))
        S.append(("four sensors in a ring", [(2, 1, 0, [1, 2]), (1, 2, 0, [2]), (2, 1, 1, [2, 1]), (1, 1, 0, [1])], [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], (1, 1, 1)))
    return S


def harnesses(tree, tier):
    P = M.program(tree)
    mod = P.load(M.GP + "harmonisation_eiv_pc.pc_algo")
    out, world = [], {}
    for nm in ("least_squares", "qr", "lstsq", "ceil"): setattr(mod, nm, (lambda nm: lambda *a, **k: world[nm](*a, **k))(nm))
    P.loops["PCAlgo.runPC#0"] = Repeat(world)
    for st in structures(tier):
        s = "pairing graph: " + st[0]
        out.append(Harness("solution and covariance: " + st[0], whole(P, mod, st, world), [FN[0] % "runPC"], ["PCAlgo.calc_LK", "PCAlgo.get_f", "PCAlgo.get_Ja"], structure=s, timeout=300))
        out.append(Harness("start: " + st[0], start(P, mod.PCAlgo, st), ["pc_algo.PCAlgo.__init__"], structure=s))
        out.append(Harness("covariance factor: " + st[0], factor(P, mod.PCAlgo, st), [FN[0] % "calc_LK"] + FN[1:], ["sensor model", "adjustment model"], structure=s, timeout=300))
        out.append(Harness("residuals: " + st[0], residual(P, mod.PCAlgo, st, "f"), [FN[0] % "get_f", FN[0] % "calc_fJa"] + FN[1:], ["sensor model", "adjustment model"], structure=s, timeout=300))
        out.append(Harness("Jacobian: " + st[0], residual(P, mod.PCAlgo, st, "Ja"), [FN[0] % "get_Ja", FN[0] % "calc_fJa"] + FN[1:], ["sensor model", "adjustment model"], structure=s, timeout=300))
    return out


def start(P, PC, st):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        before = M.snapshot(Y.mu)
        A = ctx.call(PC, Y.mu)
        c.oblige("works on the data given", lift(A.HData is Y.mu))
        n = lift(Y.Nvar) + Y.na
        c.oblige("state: data and parameters", M.same(A.xyza, SArr.of((n,), lambda k: T.ite(T.lt(lift(k), lift(Y.Nvar)), T.app("val", [lift(k)]), T.app("a", [lift(k) - Y.Nvar])))))
        c.oblige("the state is its own array", lift(A.xyza.store is not Y.mu.values.store and A.xyza.store is not Y.mu.a.store))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(Y.mu, before)), lift(not M.unchanged(Y.mu, before)))
    return h


def state(P, PC, st, c):
    Y = M.build(P, c, st, normalised=True)
    A = ctx.call(PC, Y.mu)
    n = lift(Y.Nvar) + Y.na
    z = lambda k: T.app("z", [lift(k)])
    A.xyza = SArr.of((n,), z)
    return Y, A, z


def dR(Y, s, pos, t, X, a, k):
    """Derivative of the measurand with respect to its sensor's k-th variable or (after those) parameter."""
    if Y.npar[Y.Im[s][pos]] == 0: return T.real(1 if k == 0 else 0)
    return M.spec_dR(Y, s, pos, t, X, a, k)


def factor(P, PC, st):
    def h(c):
        Y, A, z = state(P, PC, st, c)
        before, x0 = M.snapshot(Y.mu), M.freeze(A.xyza)
        L = ctx.call(A.calc_LK, Y.mu)
        ok = getattr(L, "what", None) == "cholesky"
        c.oblige("a Cholesky factor", lift(ok))
        if not ok: return
        V = L.arg
        c.oblige("one row and column per match-up", T.and_(lift(V.ndim == 2), T.eq(lift(V.shape[0]), lift(Y.Nmu)), T.eq(lift(V.shape[1]), lift(Y.Nmu))))
        X = lambda b, t: M.spec_X(Y, z, b, t)
        a = lambda k: z(lift(Y.Nvar) + k)

        def weight(s, pos, b, t):      # derivative of the normalised adjustment factor with respect to block b's value
            return (1 if pos else -1) * M.spec_JB(Y, s, pos, t, X, a) * dR(Y, s, pos, t, X, a, Y.blocks[b][0]) / T.app("uK%d" % s, [t])

        def shared(s, t):
            r = [T.real(0)] * Y.ns
            for b, (v, ss, pos) in enumerate(Y.blocks):
                if ss == s and b in Y.sysno: r[Y.sysno[b] - 1] = r[Y.sysno[b] - 1] + weight(s, pos, b, t) * T.app(Y.uS[b], [t])
            return r

        def own(s, t):
            r = T.real(1)
            for b, (v, ss, pos) in enumerate(Y.blocks):
                if ss == s: r = r + (weight(s, pos, b, t) * T.app(Y.uR[b], [t])) ** 2
            return r
        for s in range(len(Y.Nm)):
            i, hi = M.generic(c, "i", Y.Nm[s])
            j, hj = M.generic(c, "j", Y.Nm[s])
            g = lambda s, t: lift(Y.cNm[s]) + t
            sq = T.real(0)
            for x in shared(s, i): sq = sq + x * x
            c.oblige("series %d: variance of a match-up" % s, T.eq(V.at(g(s, i), g(s, i)), own(s, i) + sq), hi)
            cov = T.real(0)
            for x, y in zip(shared(s, i), shared(s, j)): cov = cov + x * y
            c.oblige("series %d: covariance of two match-ups" % s, T.implies(T.not_(T.eq(i, j)), T.eq(V.at(g(s, i), g(s, j)), cov)), hi + hj)
            for r in range(len(Y.Nm)):
                if r == s: continue
                j, hj = M.generic(c, "j", Y.Nm[r])
                cov = T.real(0)
                for x, y in zip(shared(s, i), shared(r, j)): cov = cov + x * y
                c.oblige("series %d and %d: covariance of two match-ups" % (s, r), T.eq(V.at(g(s, i), g(r, j)), cov), hi + hj)
        c.oblige("state unmodified", M.same(A.xyza, x0))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(Y.mu, before)), lift(not M.unchanged(Y.mu, before)))
    return h


def residual(P, PC, st, which):
    def h(c):
        Y, A, z = state(P, PC, st, c)
        A.LK = keep = SArr.of((Y.Nmu, Y.Nmu), lambda i, j: T.app("L", [i, j]))
        before = M.snapshot(Y.mu)
        av = SArr.of((Y.na,), lambda k: T.app("p", [lift(k)]))
        r = ctx.call(A.get_f if which == "f" else A.get_Ja, av)
        ok = getattr(r, "what", None) == "solve"
        c.oblige("whitened by solving a linear system", lift(ok))
        if not ok: return
        c.oblige("whitened by the covariance factor", lift(r.arg[0] is keep) if r.arg[0] is keep else M.same(r.arg[0], keep))
        b = r.arg[1]
        X = lambda q, t: M.spec_X(Y, z, q, t)
        a = lambda k: T.app("p", [lift(k)])
        shape = (Y.Nmu,) if which == "f" else (Y.Nmu, Y.na)
        c.oblige("shape", T.and_(lift(b.ndim == len(shape)), *[T.eq(lift(x), lift(y)) for x, y in zip(b.shape, shape)]))
        for s in range(len(Y.Nm)):
            t, ht = M.generic(c, "t", Y.Nm[s])
            g = lift(Y.cNm[s]) + t
            if which == "f":
                want = (M.spec_B(Y, s, 1, t, X, a) - M.spec_B(Y, s, 0, t, X, a)) / T.app("uK%d" % s, [t]) - T.app("ks", [g])
                c.oblige("series %d: adjustment factor misfit of the given parameters" % s, T.eq(b.at(g), want), ht)
                continue
            for k in range(Y.na):
                want = T.real(0)
                for pos in (0, 1):
                    q = Y.Im[s][pos]
                    mine = [m for m, n in enumerate(Y.par) if n == Y.sname[q]]
                    if k in mine: want = want + (1 if pos else -1) * M.spec_JB(Y, s, pos, t, X, a) * M.spec_dR(Y, s, pos, t, X, a, Y.ms[q] + mine.index(k)) / T.app("uK%d" % s, [t])
                c.oblige("series %d: derivative with respect to parameter %d" % (s, k), T.eq(b.at(g, T.const(k)), want), ht)
        i, hi = M.generic(c, "i", Y.Nvar)
        c.oblige("variables of the state unmodified", T.eq(A.xyza.at(i), z(i)), hi)
        c.oblige("given parameters unmodified", M.same(av, SArr.of((Y.na,), lambda k: T.app("p", [lift(k)]))))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(Y.mu, before)), lift(not M.unchanged(Y.mu, before)))
    return h


# The iteration and the returned covariance -------------------------------------------------------------------------------------
class Repeat(Declared):
    """runPC's loop: after any number of repetitions the estimate carried on is the last one returned by the minimiser."""

    def __init__(self, world): self.world = world

    def entry(self, c, env):
        w = self.world["w"]
        c.oblige("loop entry: no repetition counted", T.eq(lift(env["niter"]), T.const(0)))
        c.oblige("loop entry: not converged", lift(env["conv"] is False))
        c.oblige("loop entry: starts at the parameters of the data", M.same(env["a0"], w.a(T.const(0))))

    def havoc(self, c, env, k, n):
        w = self.world["w"]
        w.k0, w.conv = T.sym("niter", "I"), T.sym("conv", "B")
        c.assume(T.le(T.const(0), w.k0), T.implies(w.conv, T.le(T.const(1), w.k0)))
        w.minimised, w.factor = 0, None
        w.A.xyza.store.fn = lambda i: T.app("z", [lift(i)])
        return {"niter": w.k0, "conv": w.conv, "a0": w.a(w.k0), "a": w.a(w.k0), "norma": T.sym("step")}, [w.A, w.A.xyza]

    def preserve(self, c, env, k, n):
        w = self.world["w"]
        c.oblige("another repetition only without convergence", T.not_(w.conv))
        c.oblige("repetition counted", T.eq(lift(env["niter"]), w.k0 + 1))
        c.oblige("one minimisation per repetition", lift(w.minimised == 1))
        c.oblige("the next repetition starts where this one ended", M.same(env["a0"], w.a(w.k0 + 1)))
        c.oblige("the estimate is the minimiser's", M.same(env["a"], w.a(w.k0 + 1)))
        step = [w.a(w.k0 + 1).at(T.const(j)) - w.a(w.k0).at(T.const(j)) for j in range(w.Y.na)]
        c.oblige("converged only if the parameters no longer move", T.implies(T.boolify(lift(env["conv"])), T.lt(T.fn("sqrt", sum((x * x for x in step), T.real(0))), w.tol)))


class Problem(object):
    def __init__(self, c, Y, A, tol): self.c, self.Y, self.A, self.tol, self.minimised, self.factor = c, Y, A, tol, 0, None

    def a(self, k):
        """Parameters after k repetitions (0: those of the data)."""
        return SArr.of((self.Y.na,), lambda j: T.ite(T.eq(lift(k), T.const(0)), T.app("a", [lift(j)]), T.app("x", [lift(k), lift(j)])))

    def least_squares(self, f, x0, jac=None, **kw):
        c, A = self.c, self.A
        c.oblige("minimiser starts at the last estimate", M.same(x0, self.a(self.k0)))
        c.oblige("residuals are whitened with the covariance factor of this repetition", M.same(A.LK, self.factor) if self.factor is not None and isinstance(A.LK, SArr) else lift(False))
        probe = SArr.of((self.Y.na,), lambda j: T.app("probe", [lift(j)]))
        c.oblige("minimises the whitened residuals", M.same(ctx.call(f, probe), A.residuals(probe)))
        c.oblige("with their Jacobian", M.same(ctx.call(jac, probe), A.jacobian(probe)))
        self.minimised += 1
        self.A.xyza.store.fn = lambda i: T.app("z_then", [lift(i)])
        return {"x": self.a(self.k0 + 1)}


def size(n):
    """A dimension as a number (it may be a term with one possible value on this path)."""
    if isinstance(n, int): return n
    c = ctx.current()
    for k in range(40):
        if c.prover.prove(c.pc, T.eq(lift(n), T.const(k)))[0] == "valid": return k
    raise T.Unsupported("matrix of symbolic size")


def qr(c, log):
    def f(J, *a, **k):
        """scipy.linalg.qr(J): an orthogonal Q and an upper triangular R with J = Q R; J'J = R'R, here for a J of full column rank."""
        n = size(J.shape[1])
        if a or k: raise T.Unsupported("qr with options")
        R = [[T.sym("r%d%d" % (i, j)) if j >= i else T.real(0) for j in range(n)] for i in range(n)]
        for i in range(n): c.assume(T.not_(T.eq(R[i][i], T.real(0))))
        rows = J.shape[0]
        log.append((M.freeze(J), R))
        c.assume(T.le(T.const(n), lift(rows)))
        def at(i, j):
            e = T.real(0)
            for p in range(n):
                for q in range(n): e = T.ite(T.and_(T.eq(lift(i), T.const(p)), T.eq(lift(j), T.const(q))), R[p][q], e)
            return e
        return object(), SArr.of((rows, n), at)
    return f


def lstsq(A, B, *a, **k):
    """The X with A X = B, for an upper triangular A without zeros on its diagonal."""
    n = size(A.shape[0])
    if n != size(A.shape[1]) or n != size(B.shape[0]): raise T.Unsupported("least-squares solution of a non-square system")
    e = [[lift(A.at(T.const(i), T.const(j))) for j in range(n)] for i in range(n)]
    if any(not T.is_const(e[i][j], 0) for i in range(n) for j in range(i)): raise T.Unsupported("least-squares solution of a general system")
    m = size(B.shape[1])
    X = [[None] * m for _ in range(n)]
    for j in range(m):
        for i in reversed(range(n)):
            s = lift(B.at(T.const(i), T.const(j)))
            for p in range(i + 1, n): s = s - e[i][p] * X[p][j]
            X[i][j] = s / e[i][i]
    from pyvc import npmodel
    return (npmodel.asarray(X), None, None, None)


def whole(P, mod, st, world):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        log = []

        class A_(mod.PCAlgo):
            def calc_LK(self, HData):
                c.oblige("callee precondition: factor of the data's covariance", lift(HData is Y.mu))
                w.factor = SArr.of((Y.Nmu, Y.Nmu), lambda i, j: T.app("L", [lift(w.k0), i, j]))
                return w.factor

            def residuals(self, a): return SArr.of((Y.Nmu,), lambda i: T.app("f", [lift(i)] + [a.at(T.const(j)) for j in range(Y.na)]))
            def jacobian(self, a): return SArr.of((Y.Nmu, Y.na), lambda i, k: T.app("dfda", [lift(i), lift(k)] + [a.at(T.const(j)) for j in range(Y.na)]))
            def get_f(self, a, *args): return self.residuals(a)
            def get_Ja(self, a): return self.jacobian(a)

            def calc_fJa(self, a, ret="f"): return self.residuals(a) if ret == "f" else self.jacobian(a)
        A = A_(Y.mu)
        w = Problem(c, Y, A, T.sym("tol"))
        c.assume(T.lt(T.real(0), w.tol), T.le(T.const(Y.na), lift(Y.Nmu)))
        world.update(w=w, least_squares=w.least_squares, qr=qr(c, log), lstsq=lstsq, ceil=lambda x: ceil(c, x))
        before = M.snapshot(Y.mu)
        r = ctx.call(A.runPC, tol=w.tol)
        c.oblige("seven results", lift(isinstance(r, tuple) and len(r) == 7))
        a, V = r[0], r[1]
        c.oblige("at least one repetition", T.le(T.const(1), w.k0))
        c.oblige("one value per parameter", T.and_(lift(a.ndim == 1), T.eq(lift(a.shape[0]), T.const(Y.na))))
        for j in range(Y.na): c.oblige("parameter %d is the minimiser's" % j, T.eq(a.at(T.const(j)), w.a(w.k0).at(T.const(j))))
        c.oblige("one factorisation of a Jacobian", lift(len(log) == 1))
        J, R = log[0]
        c.oblige("the Jacobian at the returned parameters", M.same(J, A.jacobian(w.a(w.k0))))
        n = Y.na
        c.oblige("covariance: one row and column per parameter", T.and_(lift(V.ndim == 2), T.eq(lift(V.shape[0]), T.const(n)), T.eq(lift(V.shape[1]), T.const(n))))
        for i in range(n):
            for k in range(n):
                e = T.real(0)
                for j in range(n):
                    g = sum((R[p][j] * R[p][k] for p in range(n)), T.real(0))
                    e = e + V.at(T.const(i), T.const(j)) * g
                c.oblige("covariance times normal matrix is the identity: %d %d" % (i, k), T.eq(e, T.real(1 if i == k else 0)))
        for k in range(2, 7): c.oblige("no statistics or residuals", lift(r[k] is None))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(Y.mu, before)), lift(not M.unchanged(Y.mu, before)))
    return h


def ceil(c, x):
    k = T.fresh("ceil", "I")
    c.assume(T.le(lift(x), k), T.lt(k, lift(x) + 1))
    if getattr(lift(x), "op", None) == "fn" and lift(x).args[0] in ("sqrt", "pow"): c.assume(T.le(T.const(0), k))
    return k
