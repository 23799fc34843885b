"""Parameter covariance matrix: assembled element by element, in one process, by workers, or from stored elements.

The element (i, j) computed by `calculate_parameter_covariance_matrix_ij` is (P'e_i).x where x is what the inner symmetric solver
returns for the right-hand side P'e_j and the operator calc_Hx; the assembly is checked against the callee's contract (an
arbitrary function E(i, j)), for every order in which workers may evaluate the elements."""
import types
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = M.TRUSTED + ["multiprocessing.Pool.map: the results in the order of the arguments, the function applied once to each, in any order, on a copy of the object",
                       "pykrylov Minres: solve(rhs) leaves some vector of the operator's dimension in .x (any vector; proved in C27)", "scipy LinearOperator(shape, matvec): holds the product",
                       "glob.glob: exactly the existing paths of the pattern, in any order; numpy.loadtxt: the number stored in the file; pickle: load returns what was dumped",
                       "netCDF4: a variable holds what was assigned to it (contracts/nc_common.py)"]
ASSUMPTIONS = ["number of parameters fixed per structure (1, 2, 3, 11 and 12; thorough also 20 and 25)", "directory names without wildcard characters (glob)",
               "float32 storage of elements treated as exact"]


def harnesses(tree, tier):
    P = M.program(tree)
    mod = P.load(M.GP + "harmonisation_eiv.GN_algo")
    out = []
    for n in (1, 2, 3, 11, 12) + (() if tier == "quick" else (20, 25)):
        for k, order in enumerate(("forward", "backward", "scrambled")):
            out.append(Harness("workers' elements assembled: %d parameters, evaluated %s" % (n, order), matrix(mod, n, k), ["GN_algo.GNAlgo.calculate_parameter_covariance_matrix"],
                               ["GNAlgo.calculate_parameter_covariance_matrix_ij"], structure="%d parameters" % n))
    for st in M.structures(tier)[:3]:
        out.append(Harness("element: " + st[0], element(P, mod, st), ["GN_algo.GNAlgo.calculate_parameter_covariance_matrix_ij", "GN_algo.GNAlgo.calc_Px"], ["GNAlgo.calc_Hx"], structure="pairing graph: " + st[0]))
        out.append(Harness("operator: " + st[0], operator(P, mod, st), ["GN_algo.GNAlgo.calc_Hx"], ["GNAlgo.calc_prod_JPx"], structure="pairing graph: " + st[0]))
    Q = N.program(tree)
    M.complete(Q)
    out.append(Harness("state handed to separate jobs", handover(Q, tree), ["GN_algo.GNAlgo.save", "GN_algo.GNAlgo.open"]))
    op = jobs_module(tree)
    for n in (1, 2, 3, 11, 12) + (() if tier == "quick" else (20, 25)):
        for k, order in enumerate(("listed in order", "listed by name", "listed scrambled")):
            out.append(Harness("stored elements combined: %d parameters, %s" % (n, order), combine(op, n, k), ["HarmonisationOp.HarmonisationOp.combine_parameter_covariance_ij"], structure="%d parameters" % n))
    out.append(Harness("job element is that of its own parameters", job(op), ["HarmonisationOp.HarmonisationOp.calculate_parameter_covariance_ij"], ["GNAlgo.calculate_parameter_covariance_matrix_ij"]))
    return out


def scramble(xs, k): return xs if k == 0 else xs[::-1] if k == 1 else sorted(xs, key=str) if k == 3 else xs[1::2] + xs[::2][::-1]


def E(i, j): return T.app("E", [lift(i), lift(j)])


def matrix(mod, n, k):
    def h(c):
        seen = []

        class Pool(object):
            __pyvc_mutable__ = True

            def __init__(self, *a, **kw): pass

            def map(self, f, xs, *a, **kw):
                xs = list(xs)
                res = {}
                for q in scramble(list(range(len(xs))), k): res[q] = f(xs[q])
                return [res[q] for q in range(len(xs))]

            def imap(self, f, xs, *a, **kw): return iter(self.map(f, xs))
            starmap = lambda self, f, xs, *a, **kw: self.map(lambda x: f(*x), xs)
            def close(self): pass
            def join(self): pass
            def terminate(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): return False
        mod.Pool = Pool

        class G_(mod.GNAlgo):
            def __init__(self): self.HData = types.SimpleNamespace(a=SArr.of((n,), lambda i: T.app("a", [lift(i)])))

            def calculate_parameter_covariance_matrix_ij(self, ij, tolU=1e-8, show=False):
                c.oblige("callee precondition: a pair of parameters", T.and_(*[T.and_(T.le(T.const(0), lift(x)), T.lt(lift(x), T.const(n))) for x in (ij[0], ij[1])]))
                return E(ij[0], ij[1])
        V = ctx.call(G_().calculate_parameter_covariance_matrix)
        c.oblige("one row and column per parameter", T.and_(lift(V.ndim == 2), T.eq(lift(V.shape[0]), T.const(n)), T.eq(lift(V.shape[1]), T.const(n))))
        at = lambda i, j: V.at(T.const(i), T.const(j))
        for i in range(n):
            for j in range(n):
                c.oblige("element %d %d is the mean of the two computed for its pair" % (i, j), T.eq(at(i, j), (E(i, j) + E(j, i)) / 2))
                c.oblige("symmetric %d %d" % (i, j), T.eq(at(i, j), at(j, i)))
    return h


class Minres(object):
    __pyvc_mutable__ = True

    def __init__(self, w, op): self.w, self.op, self.x = w, op, None

    def solve(self, rhs, **k):
        w = self.w
        c, Y = w["c"], w["Y"]
        w["solves"] += 1
        c.oblige("right-hand side: one entry per unknown", T.and_(lift(rhs.ndim == 1), T.eq(lift(rhs.shape[0]), lift(Y.Nvar) + Y.na)))
        i, hi = M.generic(c, "i", Y.Nvar)
        c.oblige("right-hand side: zero for variables", T.eq(rhs.at(i), T.real(0)), hi)
        for m in range(Y.na): c.oblige("right-hand side: preconditioned unit of its second parameter, %d" % m, T.eq(rhs.at(lift(Y.Nvar) + m), T.app("S", [T.const(w["j"]), T.const(m)])))
        self.x = SArr.of((lift(Y.Nvar) + Y.na,), lambda q: T.app("x", [lift(q)]))


def element(P, mod, st):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        w = {"c": c, "Y": Y}

        class G_(mod.GNAlgo):
            def calc_Hx(self, x):
                f = x.frozen()
                return SArr.of(x.shape, lambda q: T.app("Hx", [lift(q)]) + f(q))
        G = G_(Y.mu)
        G.S = SArr.of((Y.na, Y.na), lambda i, j: T.app("S", [i, j]))
        keep = G.S

        def operator(shape, matvec=None, rmatvec=None, **k):
            c.oblige("operator: unknowns by unknowns", T.and_(*[T.eq(lift(s), lift(Y.Nvar) + Y.na) for s in shape]))
            y = SArr.of((lift(Y.Nvar) + Y.na,), lambda q: T.app("y", [lift(q)]))
            r = matvec(y)
            q, hq = M.generic(c, "q", lift(Y.Nvar) + Y.na)
            c.oblige("operator: the normal matrix", T.eq(r.at(q), T.app("Hx", [q]) + T.app("y", [q])), hq)
            return ("operator",)
        mod.LinearOperator = operator

        def minres(op, *a, **k):
            c.oblige("solver works on the operator", lift(op == ("operator",)))
            return Minres(w, op)
        mod.Minres = minres
        before = M.snapshot(Y.mu)
        for i in range(Y.na):
            for j in range(Y.na):
                w.update(j=j, solves=0)
                v = ctx.call(G.calculate_parameter_covariance_matrix_ij, [i, j])
                c.oblige("one inner solve", lift(w["solves"] == 1))
                want = T.real(0)
                for m in range(Y.na): want = want + T.app("S", [T.const(i), T.const(m)]) * T.app("x", [lift(Y.Nvar) + m])
                c.oblige("element %d %d: its first parameter's row of the solution" % (i, j), T.eq(lift(v), want))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(Y.mu, before)), lift(not M.unchanged(Y.mu, before)))
        c.oblige("preconditioner unmodified", lift(G.S is keep))
    return h


def operator(P, mod, st):
    def h(c):
        Y = M.build(P, c, st, normalised=True)
        n = lift(Y.Nvar) + Y.na
        r = lift(Y.Nvar) + Y.Nmu

        class G_(mod.GNAlgo):
            def calc_prod_JPx(self, x, transpose=False):
                if not transpose:
                    c.oblige("forward product of the argument", M.same(x, X))
                    return SArr.of((r,), lambda q: T.app("JPx", [lift(q)]))
                c.oblige("transposed product of the forward product", M.same(x, SArr.of((r,), lambda q: T.app("JPx", [lift(q)]))))
                return SArr.of((n,), lambda q: T.app("HX", [lift(q)]))
        G = G_(Y.mu)
        X = SArr.of((n,), lambda q: T.app("X", [lift(q)]))
        y = ctx.call(G.calc_Hx, X)
        c.oblige("transposed product after forward product", M.same(y, SArr.of((n,), lambda q: T.app("HX", [lift(q)]))))
    return h


def handover(Q, tree):
    mod = Q.load(M.GP + "harmonisation_eiv.GN_algo")
    files = {}

    class F(object):
        __pyvc_mutable__ = True

        def __init__(self, path, mode):
            self.path, self.mode = path, mode
            if "w" in mode: files[path] = None
            elif path not in files: raise IOError(path)

        def __enter__(self): return self
        def __exit__(self, *a): return False
        def close(self): pass
    mod.open = F
    pk = types.SimpleNamespace(dump=lambda o, f, *a, **k: files.__setitem__(f.path, o), load=lambda f, *a, **k: files[f.path])
    for nm in ("cPickle", "pickle"): setattr(mod, nm, pk)
    mod.makedirs = lambda p, *a: None

    def h(c):
        files.clear(); Q.fs.files.clear()
        n, z, na, nk = T.sym("n", "I"), T.sym("z", "I"), T.sym("na", "I"), T.sym("nk", "I")
        for x in (n, z, na, nk): c.assume(T.le(T.const(1), x))
        vals, st, S, ks = [N.sym_array(a, s) for a, s in (("values", (n,)), ("state", (z,)), ("S", (na, na)), ("ks", (nk,)))]
        idx = {"idx": [0, 4], "sensors": ["A", "B"]}
        G, H = mod.GNAlgo.__new__(mod.GNAlgo), mod.GNAlgo.__new__(mod.GNAlgo)
        G.HData = types.SimpleNamespace(values=vals, ks=ks, idx=idx, a=None)
        G.xyza, G.S = st, S
        ctx.call(G.save, "where")
        H.HData = types.SimpleNamespace(values=None, ks=N.sym_array("unnormalised ks", (nk,)), idx=None, a=None)
        H.xyza, H.S = None, None
        ctx.call(H.open, "where")
        for nm, x, y in (("values", H.HData.values, N.sym_array("values", (n,))), ("state", H.xyza, N.sym_array("state", (z,))), ("preconditioner", H.S, N.sym_array("S", (na, na))), ("normalised adjustment factors", H.HData.ks, N.sym_array("ks", (nk,)))):
            c.oblige("job reopens the %s saved" % nm, M.same(x, y))
        c.oblige("job reopens the index structure saved", lift(H.HData.idx == {"idx": [0, 4], "sensors": ["A", "B"]}))
        c.oblige("saving keeps the state", T.and_(M.same(G.xyza, N.sym_array("state", (z,))), M.same(G.HData.values, N.sym_array("values", (n,))), M.same(G.S, N.sym_array("S", (na, na))), M.same(G.HData.ks, N.sym_array("ks", (nk,)))))
    return h


def jobs_module(tree):
    P = M.program(tree)
    h = P.load("harmonisation")
    for nm in ("HarmonisationEIV", "Sample2Ind", "HarmonisationResult"):      # names the package's own __init__ leaves commented out
        if nm not in h.__dict__: setattr(h, nm, object)
    return P.load("harmonisation.tools.HarmonisationOp")


def matches(pattern, name):
    import fnmatch
    return fnmatch.fnmatchcase(name, pattern)


def combine(mod, n, k):
    def h(c):
        d = "/data/temp[9]/out" if False else "/data/temp/out"
        stored = {d + "/parameter_covariance_matrix[%d,%d].dat" % (i, j): E(i, j) for i in range(n) for j in range(n)}
        others = [d + "/GNOp_data.nc", d + "/harm_output.nc", "/data/temp/parameter_covariance_matrix[0,0].dat"]

        def glob(p): return scramble([q for q in list(stored) + others if matches(p, q) and q.count("/") == p.count("/")], (0, 3, 2)[k])

        def loadtxt(f, *a, **kw): return SArr.of((), lambda: stored[f])
        mod.glob, mod.loadtxt = glob, loadtxt
        op = mod.HarmonisationOp.__new__(mod.HarmonisationOp)
        op.temp_directory = d
        V = ctx.call(op.combine_parameter_covariance_ij)
        c.oblige("one row and column per parameter", T.and_(lift(V.ndim == 2), T.eq(lift(V.shape[0]), T.const(n)), T.eq(lift(V.shape[1]), T.const(n))))
        at = lambda i, j: V.at(T.const(i), T.const(j))
        for i in range(n):
            for j in range(n): c.oblige("element %d %d is the mean of the two stored for its pair" % (i, j), T.eq(at(i, j), (E(i, j) + E(j, i)) / 2))
    return h


def job(mod):
    def h(c):
        data = types.SimpleNamespace(idx={"idx": [0, 1]})
        opened, asked = [], []

        class G_(object):
            __pyvc_mutable__ = True
            def __init__(self, HData, *a): c.oblige("solver over the match-up data read", lift(HData is data))
            def open(self, d): opened.append(d)

            def calculate_parameter_covariance_matrix_ij(self, ij, *a, **k):
                c.oblige("saved state opened first", lift(opened == ["/tmp-dir"]))
                return E(ij[0], ij[1])
        mod.GNAlgo = G_
        op = mod.HarmonisationOp.__new__(mod.HarmonisationOp)
        op.dataset_paths, op.sensor_data_path, op.temp_directory = ["a"], "s", "/tmp-dir"
        op.data_reader = lambda paths, s, **k: data
        i, j = T.sym("i", "I"), T.sym("j", "I")
        c.oblige("element of its own parameters", T.eq(lift(ctx.call(op.calculate_parameter_covariance_ij, i, j)), E(i, j)))
    return h
