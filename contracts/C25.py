"""GNAlgo.run: whatever the inner solver returns, the reported quantities belong to the last iterate.

The iteration loop carries a declared invariant (`Iterate`): residuals, cost and state of one iterate belong together, and a
converged verdict is only reached after an iteration.  The inner solver is an arbitrary function of its right-hand side; the
residual function and the transposed product are opaque functions of the state (their own contracts: C09 and C10)."""
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.instrument import Declared
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M
from contracts.gn_common import direction

TRUSTED = M.TRUSTED + ["scipy LinearOperator(shape, matvec, rmatvec): holds the two products", "pykrylov LSMR: solve(rhs) leaves a vector of the operator's column dimension in .x (any vector; proved in C27)",
                       "numpy.linalg.norm: square root of the sum of squares; ord=inf: largest absolute value (a function of the contents)", "numpy.linalg.cholesky: a function of its argument"]
ASSUMPTIONS = ["parameter covariance: taken from calculate_parameter_covariance_matrix (C26)", "termination of the iteration is bounded by its limit (stated); the inner solver terminates"]
FN = ["GN_algo.GNAlgo.run", "GN_algo.GNAlgo.calc_Px", "transform2normind.Transform2NormInd.reverse"]


def harnesses(tree, tier):
    P = M.program(tree)
    mod = P.load(M.GP + "harmonisation_eiv.GN_algo")
    world = {}
    mod.LinearOperator = lambda *a, **k: world["operator"](*a, **k)
    mod.LSMRFramework = lambda *a, **k: world["inner"](*a, **k)
    P.loops["GNAlgo.run#0"] = Iterate(world)
    out = [Harness("starting point and preconditioner", init(P, mod.GNAlgo, M.structures(tier)[1]), ["GN_algo.GNAlgo.__init__"])]
    for st in M.structures(tier):
        for cov in (True, False):
            out.append(Harness("run: %s%s" % (st[0], "" if cov else ", without covariance"), make(P, mod.GNAlgo, st, cov, world), FN,
                               ["GNAlgo.calc_f", "GNAlgo.get_JPTx", "GNAlgo.calculate_parameter_covariance_matrix"], structure="pairing graph: " + st[0], timeout=300))
    return out


def init(P, GN, st):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        before = M.snapshot(Y.mu)
        V = SArr.of((Y.na, Y.na), lambda i, j: T.app("V", [i, j]))
        for nm, G in (("given covariance", ctx.call(GN, Y.mu, V)), ("no covariance", ctx.call(GN, Y.mu))):
            c.oblige(nm + ": data", lift(G.HData is Y.mu))
            c.oblige(nm + ": state is the data and the parameters", T.and_(lift(G.xyza.ndim == 1), T.eq(lift(G.xyza.shape[0]), Y.Nvar + Y.na)))
            i, hi = M.generic(c, "i", Y.Nvar)
            c.oblige(nm + ": state starts at the data", T.eq(G.xyza.at(i), T.app("val", [i])), hi)
            for k in range(Y.na): c.oblige(nm + ": parameter %d starts at its initial value" % k, T.eq(G.xyza.at(Y.Nvar + k), T.app("a", [T.const(k)])))
            c.oblige(nm + ": the state is not the data array", lift(G.xyza.store is not Y.mu.values.store))
            if nm == "no covariance":
                for i in range(Y.na):
                    for j in range(Y.na): c.oblige("identity preconditioner", T.eq(lift(G.S.at(T.const(i), T.const(j))), T.real(1 if i == j else 0)))
            else: c.oblige("preconditioner is the Cholesky factor", lift(getattr(G.S, "what", None) == "cholesky" and G.S.arg is V))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(Y.mu, before)), lift(not M.unchanged(Y.mu, before)))
    return h


class Versions(object):
    """Names of the vectors seen so far: equal contents (proved), same name."""

    def __init__(self, c, prefix): self.c, self.prefix, self.seen = c, prefix, []

    def name(self, *xs):
        xs = [M.freeze(x) for x in xs]
        for k, ys in enumerate(self.seen):
            if all(self.c.prover.prove(self.c.pc, M.same(x, y))[0] == "valid" for x, y in zip(xs, ys)): return "%s%d" % (self.prefix, k)
        self.seen.append(xs)
        return "%s%d" % (self.prefix, len(self.seen) - 1)


class World(object):
    def __init__(self, c, Y, G):
        self.c, self.Y, self.G = c, Y, G
        self.states, self.grads = Versions(c, "F"), Versions(c, "g")
        self.products = Versions(c, "h")
        self.solves, self.hdata, self.S = 0, G.HData, G.S

    def F(self, x):
        nm = self.states.name(x)
        return SArr.of((self.Y.Nvar + self.Y.Nmu,), lambda k: T.app(nm, [lift(k)]))

    def cost(self, x):
        f = self.F(x).frozen()
        k = T.fresh("s", "I")
        return T.sum_(k, 0, self.Y.Nvar + self.Y.Nmu, f(k) * f(k))

    def gradient(self, x, y):
        nm = self.grads.name(x, y)
        return SArr.of((self.Y.Nvar + self.Y.na,), lambda k: T.app(nm, [lift(k)]))

    def operator(self, shape, matvec=None, rmatvec=None, **k):
        c, G, Y = self.c, self.G, self.Y
        c.oblige("inner problem: residuals by unknowns", T.and_(T.eq(lift(shape[0]), Y.Nvar + Y.Nmu), T.eq(lift(shape[1]), Y.Nvar + Y.na)))
        for nm, f, n, m in (("J", matvec, Y.Nvar + Y.na, Y.Nvar + Y.Nmu), ("JT", rmatvec, Y.Nvar + Y.Nmu, Y.Nvar + Y.na)):
            want = (G.get_JPx if nm == "J" else G.get_JPTx)(SArr.of((n,), lambda k: T.app("any", [lift(k)])))
            c.oblige("inner problem: the products of the preconditioned Jacobian, " + nm, M.same(f(SArr.of((n,), lambda k: T.app("any", [lift(k)]))), want))
        return ("operator", self)

    def inner(self, op, *a, **k):
        self.c.oblige("inner solver works on the preconditioned Jacobian", lift(op == ("operator", self)))
        return Inner(self)


class Inner(object):
    __pyvc_mutable__ = True

    def __init__(self, w): self.w, self.x = w, None

    def solve(self, rhs, **k):
        w = self.w
        c, Y = w.c, w.Y
        f = w.F(w.G.xyza)
        c.oblige("one entry per residual", T.eq(lift(rhs.shape[0]), Y.Nvar + Y.Nmu))
        i, hi = M.generic(c, "i", Y.Nvar + Y.Nmu)
        c.oblige("inner problem is solved for minus the residuals of the current iterate", T.eq(rhs.at(i), -f.at(i)), hi)
        if "damp" in k: c.oblige("no damping", lift(T.eq(lift(k["damp"]), lift(0))))
        w.solves += 1
        nm = "step%d" % w.solves
        self.x = SArr.of((Y.Nvar + Y.na,), lambda i: T.app(nm, [lift(i)]))
        w.step = nm


class Iterate(Declared):
    def __init__(self, world): self.world = world

    def entry(self, c, env):
        w = self.world["w"]
        c.oblige("loop entry: no iteration counted", T.eq(lift(env["niter"]), T.const(0)))
        c.oblige("loop entry: not converged", lift(env["conv"] is False))
        c.oblige("loop entry: the state is the starting point", M.same(w.G.xyza, w.start))
        self.belongs(c, env, w, "loop entry")

    def belongs(self, c, env, w, nm):
        i, hi = M.generic(c, "i", w.Y.Nvar + w.Y.Nmu)
        f = w.F(w.G.xyza)
        c.oblige(nm + ": one residual per variable and match-up", T.and_(lift(env["residuals"].ndim == 1), T.eq(lift(env["residuals"].shape[0]), w.Y.Nvar + w.Y.Nmu)))
        c.oblige(nm + ": residuals belong to the state", T.eq(env["residuals"].at(i), f.at(i)), hi)
        c.oblige(nm + ": remembered cost belongs to the state", T.eq(lift(env["cost_previous"]), w.cost(w.G.xyza)))

    def havoc(self, c, env, k, n):
        w = self.world["w"]
        w.G.xyza.store.fn = lambda i: T.app("z", [lift(i)])
        w.k0 = T.sym("niter", "I")
        w.conv = T.sym("conv", "B")
        c.assume(T.le(T.const(0), w.k0), T.implies(w.conv, T.le(T.const(1), w.k0)))
        w.last = M.freeze(w.G.xyza)
        w.c0 = w.cost(w.G.xyza)
        w.solves = 0
        new = {"niter": w.k0, "conv": w.conv, "residuals": w.F(w.G.xyza), "cost_previous": w.c0, "cost": T.ite(T.le(T.const(1), w.k0), w.c0, T.sym("no cost yet"))}
        return new, [w.G.xyza, w.G] + [v for v in env.values() if type(v) is list and not v]

    def preserve(self, c, env, k, n):
        w = self.world["w"]
        Y, G, tol = w.Y, w.G, w.tol
        c.oblige("another iteration only without convergence and below the limit", T.and_(T.not_(w.conv), T.lt(w.k0, lift(Y.Nvar))))
        c.oblige("iteration counted", T.eq(lift(env["niter"]), w.k0 + 1))
        c.oblige("one inner solve per iteration", lift(w.solves == 1))
        c.oblige("data and preconditioner stay", lift(G.HData is w.hdata and G.S is w.S))
        d = direction(Y, lambda i, j: T.app("S", [i, j]), lambda k: T.app(w.step, [k]))
        i, hi = M.generic(c, "i", Y.Nvar)
        c.oblige("length of the state", T.and_(lift(G.xyza.ndim == 1), T.eq(lift(G.xyza.shape[0]), Y.Nvar + Y.na)))
        c.oblige("state moves by the step: variables", T.eq(G.xyza.at(i), T.app("z", [i]) + d(i)), hi)
        for j in range(Y.na): c.oblige("state moves by the preconditioned step: parameter %d" % j, T.eq(G.xyza.at(Y.Nvar + j), T.app("z", [Y.Nvar + j]) + d(Y.Nvar + j)))
        self.belongs(c, env, w, "next iterate")
        c1 = w.cost(G.xyza)
        c.oblige("cost belongs to the state", T.eq(lift(env["cost"]), c1))
        # the convergence test of this step
        np = self.world["np"]
        step = SArr.of((Y.Nvar + Y.na,), lambda k: G.xyza.frozen()(k) - w.last.frozen()(k))
        pieces = np.hstack((SArr.of((Y.Nvar,), lambda k: T.app(w.step, [lift(k)])), np.asarray([d(Y.Nvar + j) for j in range(Y.na)])))
        g = w.gradient(G.xyza, w.F(G.xyza))
        big = lambda x: np.linalg.norm(x, "inf")
        red = w.c0 - c1
        test = T.and_(T.le(T.real(0), red), T.lt(red, tol * (1 + c1)), T.lt(big(pieces), tol ** 0.5 * (1 + big(G.xyza))), T.le(big(2 * g), tol ** (1. / 3.) * (1 + c1)))
        conv = T.boolify(lift(env["conv"]))
        c.oblige("converged only if the test holds", T.implies(conv, test))
        c.oblige("converged if the test holds", T.implies(test, conv))


def make(P, GN, st, cov, world):
    def h(c):
        Y = M.build(P, c, st, normalised=True)

        class G_(GN):
            def calc_f(self, xyza, HData):
                c.oblige("callee precondition: residuals with respect to the data", lift(HData is Y.mu))
                return w.F(xyza)

            def get_JPTx(self, y): return w.gradient(self.xyza, y)

            def get_JPx(self, x):
                nm = w.products.name(self.xyza, x)
                return SArr.of((Y.Nvar + Y.Nmu,), lambda k: T.app(nm, [lift(k)]))
            def calculate_parameter_covariance_matrix(self, tolU=None, show=False): return SArr.of((Y.na, Y.na), lambda i, j: T.app("V", [i, j]))
        G = G_(Y.mu)
        G.xyza = SArr.of((Y.Nvar + Y.na,), lambda k: T.app("z_start", [k]))
        G.S = SArr.of((Y.na, Y.na), lambda i, j: T.app("S", [i, j]))
        w = World(c, Y, G)
        w.start = M.freeze(G.xyza)
        w.tol = T.sym("tol")
        c.assume(T.lt(T.real(0), w.tol))
        world.update(w=w, operator=w.operator, inner=w.inner, np=P.np)
        before = M.snapshot(Y.mu)
        r = ctx.call(G.run, tol=w.tol, return_covariance=cov)
        c.oblige("nine results", lift(isinstance(r, tuple) and len(r) == 9))
        a, V, cost, dof, pv, vres, kres, syse, sysn = r
        z = lambda k: T.app("z", [lift(k)])
        c.oblige("stops only when converged or at the iteration limit", T.or_(w.conv, T.le(lift(Y.Nvar), w.k0)))
        c.oblige("at least one iteration", T.le(T.const(1), w.k0))
        c.oblige("one value per parameter", T.and_(lift(a.ndim == 1), T.eq(lift(a.shape[0]), T.const(Y.na))))
        for j in range(Y.na): c.oblige("parameter %d of the last iterate" % j, T.eq(a.at(T.const(j)), z(Y.Nvar + j)))
        for i in range(Y.na):
            for j in range(Y.na): c.oblige("covariance %d %d" % (i, j), T.eq(V.at(T.const(i), T.const(j)), T.app("V", [T.const(i), T.const(j)]) if cov else T.real(0)))
        last = SArr.of((Y.Nvar + Y.na,), z)
        f = w.F(last).frozen()
        c.oblige("cost of the last iterate", T.eq(lift(cost), w.cost(last)))
        c.oblige("degrees of freedom", T.eq(lift(dof), lift(Y.Nvar) - lift(Y.Nmu) - Y.na))
        c.oblige("one residual per variable", T.and_(lift(vres.ndim == 1), T.eq(lift(vres.shape[0]), lift(Y.off_o[-1]))))
        c.oblige("one residual per adjustment factor", T.and_(lift(kres.ndim == 1), T.eq(lift(kres.shape[0]), lift(Y.Nmu))))
        for b, (v, s, pos) in enumerate(Y.blocks):
            t, ht = M.generic(c, "t", Y.Nm[s])
            c.oblige("block %d: residuals of the last iterate in original units" % b, T.eq(vres.at(lift(Y.off_o[b]) + t), M.spec_X(Y, f, b, t)), ht)
        for s in range(len(Y.Nm)):
            t, ht = M.generic(c, "t", Y.Nm[s])
            g = lift(Y.cNm[s]) + t
            c.oblige("series %d: adjustment factor residuals of the last iterate in original units" % s, T.eq(kres.at(g), f(lift(Y.Nvar) + g) * T.app("uK%d" % s, [t])), ht)
        if Y.ns == 0: c.oblige("no systematic errors reported", lift(syse is None or len(syse) == 0))
        else:
            c.oblige("one systematic error per shared variable", T.and_(lift(syse is not None and syse.ndim == 1), T.eq(lift(syse.shape[0]), T.const(Y.ns))))
            for k in range(Y.ns): c.oblige("systematic error %d of the last iterate" % k, T.eq(syse.at(T.const(k)), z(lift(Y.off_t[-1]) + k)))
            own = []
            for k in range(1, Y.ns + 1): own.append(Y.sname[[Y.q(b) for b in sorted(Y.sysno) if Y.sysno[b] == k][0]])
            c.oblige("systematic errors attributed to their sensors", lift(list(sysn or []) == own))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(Y.mu, before)), lift(not M.unchanged(Y.mu, before)))
        c.oblige("preconditioner unmodified", lift(G.S is w.S))
    return h
