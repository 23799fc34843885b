"""Symbolic match-up data objects, callee contracts and specification terms shared by the contracts of the match-up code.

A *structure* fixes the pairing graph (which sensors, how many variables and parameters, which correlation form, sharing
of matrices and systematic errors); match-up counts, matrix sizes and all contents stay symbolic.  Callee contracts:
a sensor model maps every row of its inputs to a measurand R_q(row) and derivatives dR_q_k(row) (this is what C13-C15
prove of the real models); an adjustment model maps every measurand r to B_q(r), JB_q(r).
"""
import types
from pyvc import loader, terms as T, ctx
from pyvc.arr import SArr, memo_fn, same_dim
from pyvc.terms import lift

PKG = "harmonisation.core.matchup."
GP = PKG + "matchupToolbox.harmonisation.harmonisationProcessing."
NONE = T.sym("none")


def structures(tier):
    """Pairing graphs under contract (sensors: (variables, parameters, constants, forms))."""
    S = []
    R = (1, 0, 0, [1])
    # one series: reference against a sensor with every correlation form
    S.append(("ref-sensor, forms 1 2 3 4", [R, (4, 2, 1, [1, 2, 3, 4])], [(0, 1)], (1, 1, 1)))
    # a chain with a shared sensor in both positions, systematic errors shared between series
    S.append(("chain of three series, forms 1 2", [R, (2, 2, 0, [1, 2]), (2, 1, 2, [2, 1])], [(0, 1), (1, 2), (2, 1)], (1, 1, 1)))
    # reference in second position, matrices shared between variables and series, two systematic errors
    S.append(("ref second, shared matrices, forms 3 4", [(3, 1, 0, [4, 3, 4]), R], [(0, 1), (0, 1)], (0, 0, 1)))
    # differing numbers of variables, two sensors without reference, no index variables
    S.append(("sensor-sensor, 1 and 3 variables", [(1, 2, 1, [2]), (3, 1, 0, [1, 4, 2])], [(0, 1), (1, 0)], (1, 0, 0)))
    if tier == "thorough":
        S.append(("two references", [R, (2, 3, 1, [3, 2]), R], [(0, 1), (1, 2), (2, 1)], (1, 1, 0)))
        S.append(("four sensors in a ring", [(2, 1, 0, [1, 2]), (1, 2, 0, [2]), (2, 1, 1, [4, 3]), (1, 1, 0, [1])],
                  [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], (1, 1, 1)))
        S.append(("five variables", [R, (5, 4, 3, [4, 1, 2, 3, 1])], [(1, 0), (0, 1)], (1, 1, 1)))
    return S


class Sparse(object):
    """Contract of a scipy CSR matrix: entries W(i, k), products with vectors."""

    def __init__(self, n, k, f, name): self.shape, self.f, self.name = (n, k), f, name

    def dot(self, v):
        if not isinstance(v, SArr): raise T.Unsupported("sparse product with %s" % type(v).__name__)
        if not same_dim(v.shape[0], self.shape[1]) and not ctx.current().decide(T.eq(lift(v.shape[0]), lift(self.shape[1]))):
            raise ValueError("dimension mismatch")
        g, f, m = v.frozen(), self.f, self.shape[1]

        def at(i):
            k = T.fresh("w", "I")
            return T.sum_(k, 0, m, f(lift(i), k) * g(k))
        return SArr.of((self.shape[0],), memo_fn(at))

    @property
    def T(self):
        f = self.f
        return Sparse(self.shape[1], self.shape[0], lambda i, j: f(j, i), self.name + "'")

    def __deepcopy__(self, memo): return self


class Obj(object):
    pass


class Sym(object):
    """Everything the specification needs to know about one symbolic match-up object."""

    def cov(self, b): return self.blocks[b]


def arr(name, n, *idx): return SArr.of((n,), lambda i: T.app(name, [i]))


def layout(struct):
    name, sensors, series, opt = struct
    order = []
    for i, j in series:
        for q in (i, j):
            if q not in order: order.append(q)
    blocks = []                       # (variable, series, position), in the documented order
    for v in range(max(sensors[q][0] for q in order)):
        for s, pr in enumerate(series):
            for pos, q in enumerate(pr):
                if sensors[q][0] > v: blocks.append((v, s, pos))
    return order, blocks


def program(tree):
    mods = {}
    cp = types.ModuleType("copyreg"); cp.pickle = lambda *a, **k: None
    px = types.ModuleType("pyximport"); px.install = lambda *a, **k: None
    mods["copyreg"], mods["pyximport"] = cp, px
    P = loader.Program(tree, models=mods)
    return complete(P)


def complete(P):
    h = P.load("harmonisation")
    h.Transform2NormInd = P.load(PKG + "matchupProcessing.transform2normind.Transform2NormInd").Transform2NormInd
    mm = P.load(PKG + "matchupToolbox.utils.matchup_maths")
    for f in ("evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K"): setattr(h, f, getattr(mm, f))
    return P


def build(P, c, struct, normalised=False, tag="", sizes=None, sparse=None):
    """Symbolic match-up object (precondition of everything that consumes one); asserts lengths >= 1."""
    name, sensors, series, opt = struct
    MatchUp = P.load(PKG + "matchupIO.MatchUp").MatchUp
    Unc = P.load(PKG + "matchupIO.Uncertainty").Uncertainty
    order, blocks = layout(struct)
    Y = Sym()
    Y.struct, Y.blocks, Y.order = struct, blocks, order
    Y.sname = ["S" + "0" * q for q in order]        # every name is a prefix of the next
    Y.Nm = list(sizes) if sizes else [T.sym("N%d" % s, "I") for s in range(len(series))]
    for n in Y.Nm: c.assume(T.le(T.const(1), lift(n)))
    Y.cNm = [0]
    for n in Y.Nm: Y.cNm.append(Y.cNm[-1] + n)
    Y.Im = [[order.index(i), order.index(j)] for i, j in series]
    Y.ms = [sensors[q][0] for q in order]
    Y.q = lambda b: order.index(series[blocks[b][1]][blocks[b][2]])
    form = lambda b: sensors[series[blocks[b][1]][blocks[b][2]]][3][blocks[b][0]]
    Y.form = [form(b) for b in range(len(blocks))]
    # uncertainties: one matrix per series shared by all of its weighted variables of odd count (sharing), own otherwise
    mu = MatchUp()
    mu.unc, mu.w_matrices, mu.u_matrices = [], [], []
    shared, syss = {}, []
    Y.uR, Y.uS, Y.w, Y.u, Y.sysno = {}, {}, {}, {}, {}
    for b, (v, s, pos) in enumerate(blocks):
        f = Y.form[b]
        n = Y.Nm[s]
        if f in (3, 4):
            if "shared" in name and s in shared and v % 2 == 0: wi, ui = shared[s]
            elif "shared" in name and s in shared: wi, ui = shared[s][0], None
            else: wi, ui = None, None
            if wi is None:
                wi = len(mu.w_matrices)
                K = T.sym("K%d" % wi, "I") if sparse is None else None
                if sparse is None: c.assume(T.le(T.const(1), K))
                mu.w_matrices.append(sparse(c, n, wi) if sparse else Sparse(n, K, (lambda w: lambda i, k: T.app("W%d" % w, [i, k]))(wi), "W%d" % wi))
            K = mu.w_matrices[wi].shape[1]
            if ui is None:
                ui = len(mu.u_matrices)
                mu.u_matrices.append(arr("u%d" % ui, K))
            shared.setdefault(s, (wi, ui))
            Y.w[b], Y.u[b] = wi, ui
        if f in (1, 2): Y.uR[b] = "uR%d" % b
        if f == 2: Y.uS[b] = "uS%d" % b
        if f == 1: un = Unc(1, arr(Y.uR[b], n))
        elif f == 2: un = Unc(2, (arr(Y.uR[b], n), arr(Y.uS[b], n)))
        elif f == 3: un = Unc(3, (Y.w[b], Y.u[b]))
        else:
            Y.uS[b] = T.sym("us%d" % b)
            un = Unc(4, (Y.w[b], Y.u[b], Y.uS[b]))
        if f in (2, 4):
            key = (Y.q(b), v)
            if key not in syss: syss.append(key)
            un.uS_i = syss.index(key) + 1
            Y.sysno[b] = un.uS_i
        mu.unc.append(un)
    Y.ns = len(syss)
    for nm in ("uR",):
        for b in Y.uR: c.fact(Y.uR[b], lambda a, t: T.lt(T.real(0), t))
    for k in range(len(mu.u_matrices)): c.fact("u%d" % k, lambda a, t: T.lt(T.real(0), t))
    mu.unck = [Unc(1, arr("uK%d" % s, n)) for s, n in enumerate(Y.Nm)]
    for s in range(len(series)): c.fact("uK%d" % s, lambda a, t: T.lt(T.real(0), t))
    # index structures
    N_o = [Y.Nm[s] for v, s, pos in blocks]
    off_o = [0]
    for n in N_o: off_o.append(off_o[-1] + n)
    N_t = [mu.u_matrices[Y.u[b]].shape[0] if b in Y.u else Y.Nm[blocks[b][1]] for b in range(len(blocks))]
    off_t = [0]
    for n in N_t: off_t.append(off_t[-1] + n)
    Y.N_o, Y.off_o, Y.N_t, Y.off_t = N_o, off_o, N_t, off_t
    base = {"Nm": list(Y.Nm), "cNm": list(Y.cNm), "Im": [list(x) for x in Y.Im], "sensors": list(Y.sname), "sensor_ms": list(Y.ms),
            "n_sensor": [Y.q(b) for b in range(len(blocks))], "n_mu": [s + 1 for v, s, pos in blocks], "n_cov": [v + 1 for v, s, pos in blocks]}
    par, con = [], []
    for q in list(reversed(range(len(order)))):           # parameters need not be in sensor order
        par += [Y.sname[q]] * sensors[order[q]][1]
        con += [Y.sname[q]] * sensors[order[q]][2]
    Y.par, Y.con = par, con
    Y.na = len(par)
    base["parameter_sensor"], base["sensor_model_constant_sensor"] = par, con
    import copy
    orig = dict(copy.deepcopy(base), N_var=list(N_o), idx=list(off_o))
    it = list(off_t)
    it[-1] = it[-1] + Y.ns
    norm = dict(copy.deepcopy(base), N_var=list(N_t), idx=it)
    Y.Nvar = it[-1] if normalised else off_o[-1]
    Y.Nmu = Y.cNm[-1]
    mu.idx = norm if normalised else orig
    mu._original_idx = copy.deepcopy(orig)
    mu.values = arr("val" + tag, Y.Nvar)
    mu.ks = arr("ks" + tag, Y.Nmu)
    mu.a = SArr.of((Y.na,), lambda i: T.app("a" + tag, [i]))
    mu.sensor_model_constant = [T.app("cst", [T.const(k)]) for k in range(len(con))]
    mu.time1, mu.time2 = arr("time1", Y.Nmu), arr("time2", Y.Nmu)
    if not opt[0]: mu.time1 = mu.time2 = None
    mu.across_track_index1 = arr("ac1", Y.Nmu) if opt[1] else None
    mu.across_track_index2 = arr("ac2", Y.Nmu) if opt[1] else None
    mu.along_track_index1 = arr("al1", Y.Nmu) if opt[2] else None
    mu.along_track_index2 = arr("al2", Y.Nmu) if opt[2] else None
    Y.opt = opt
    mu.sensor_model = [sensor_model(k, sensors[order[k]]) for k in range(len(order))]
    mu.adjustment_model = [adjustment(k) for k in range(len(order))]
    mu.sensor_data = {}
    Y.mu = mu
    Y.npar = [sensors[q][1] for q in order]
    Y.ncon = [sensors[q][2] for q in order]
    return Y


def one_of(x): return NONE if x is None else None


def row_args(X, a, k, aux, i):
    r = [X[j](i) for j in range(len(X))] + list(a) + list(k)
    for g in aux: r.append(NONE if g is None else g(i))
    return [T.toreal(lift(x)) for x in r]


def sensor_model(q, spec):
    m, p, nc, forms = spec

    def model(X, a, k, ac, al, t):
        """Contract of a sensor model: row-wise measurand and derivatives; precondition: shapes."""
        c = ctx.current()
        n = X.shape[0]
        ok = T.lift(X.ndim == 2 and same_dim(X.shape[1], m))
        c.oblige("callee precondition: sensor %d model is given its %d variables" % (q, m), ok)
        if len(a) != p or len(k) != nc:
            c.oblige("callee precondition: sensor %d model is given its own parameters and constants" % q, T.FALSE)
            raise ctx.Infeasible()
        xf = X.frozen()
        af = [lift(a[j]) for j in range(p)]
        kf = [lift(k[j]) for j in range(nc)]
        aux = []
        for g in (ac, al, t):
            if g is not None:
                c.oblige("callee precondition: one auxiliary value per match-up", T.eq(lift(g.shape[0]), lift(n)))
                g = g.frozen()
            aux.append(g)
        X_ = [(lambda j: lambda i: xf(i, j))(j) for j in range(m)]
        row = lambda i: row_args(X_, af, kf, aux, i)
        R = SArr.of((n,), memo_fn(lambda i: T.app("R%d" % q, row(i))))
        if p == 0: return X[:, 0], None

        def J(i, j):
            j = lift(j)
            if j.op == "const": return T.app("dR%d_%d" % (q, j.args[0]), row(i))
            r = T.app("dR%d_%d" % (q, m + p - 1), row(i))
            for z in range(m + p - 2, -1, -1): r = T.ite(T.eq(j, T.const(z)), T.app("dR%d_%d" % (q, z), row(i)), r)
            return r
        return R, SArr.of((n, m + p), memo_fn(J))
    return model


def adjustment(q):
    def model(R):
        f = R.frozen()
        return (SArr.of(R.shape, memo_fn(lambda i: T.app("B%d" % q, [f(i)]))), SArr.of(R.shape, memo_fn(lambda i: T.app("JB%d" % q, [f(i)]))))
    return model


# -- specification terms -------------------------------------------------------------------------------------------------
def own(Y, names, q, get): return [get(T.const(k)) for k, s in enumerate(names) if s == Y.sname[q]]


def spec_X(Y, z, b, i):
    """De-normalised value of match-up i of block b from normalised state z (function of the flat index)."""
    f, (v, s, pos) = Y.form[b], Y.blocks[b]
    at = lambda k: z(lift(Y.off_t[b]) + lift(k))
    sysv = z(lift(Y.off_t[-1]) + (Y.sysno[b] - 1)) if b in Y.sysno else None
    if f == 1: return at(i) * T.app(Y.uR[b], [i])
    if f == 2: return at(i) * T.app(Y.uR[b], [i]) + sysv * T.app(Y.uS[b], [i])
    k = T.fresh("w", "I")
    inner = T.app("u%d" % Y.u[b], [k]) * at(k)
    if f == 4: inner = inner + sysv * Y.uS[b]
    return T.sum_(k, 0, Y.mu.w_matrices[Y.w[b]].shape[1], T.app("W%d" % Y.w[b], [lift(i), k]) * inner)


def series_blocks(Y, s, pos): return [b for b, (v, ss, pp) in enumerate(Y.blocks) if (ss, pp) == (s, pos)]


def spec_row(Y, s, pos, i, X, a):
    """Arguments of the sensor model of position pos of series s for match-up i of the series."""
    q = Y.Im[s][pos]
    r = [X(b, i) for b in series_blocks(Y, s, pos)]
    r += own(Y, Y.par, q, a) + own(Y, Y.con, q, lambda k: T.app("cst", [k]))
    g = lift(Y.cNm[s]) + lift(i)
    P = str(pos + 1)
    r += [T.app("ac" + P, [g]) if Y.opt[1] else NONE, T.app("al" + P, [g]) if Y.opt[2] else NONE, T.app("time" + P, [g]) if Y.opt[0] else NONE]
    return [T.toreal(lift(x)) for x in r]


def spec_R(Y, s, pos, i, X, a):
    q = Y.Im[s][pos]
    row = spec_row(Y, s, pos, i, X, a)
    return row[0] if Y.npar[q] == 0 else T.app("R%d" % q, row)


def spec_dR(Y, s, pos, i, X, a, k):
    return T.app("dR%d_%d" % (Y.Im[s][pos], k), spec_row(Y, s, pos, i, X, a))


def spec_B(Y, s, pos, i, X, a): return T.app("B%d" % Y.Im[s][pos], [spec_R(Y, s, pos, i, X, a)])
def spec_JB(Y, s, pos, i, X, a): return T.app("JB%d" % Y.Im[s][pos], [spec_R(Y, s, pos, i, X, a)])


def spec_fk(Y, z, ks, s, i, zX=None):
    """Adjustment-factor residual of match-up i of series s: normalised difference of adjusted measurands minus data."""
    X = lambda b, t: spec_X(Y, z, b, t)
    a = lambda k: z(lift(Y.Nvar) + k)
    return (spec_B(Y, s, 1, i, X, a) - spec_B(Y, s, 0, i, X, a)) / T.app("uK%d" % s, [i]) - ks(lift(Y.cNm[s]) + lift(i))


def generic(c, name, n):
    """An arbitrary index in [0, n)."""
    t = T.sym(name, "I")
    return t, [T.le(T.const(0), t), T.lt(t, lift(n))]


def same(x, y, depth=0):
    """Term: x and y have the same value (arrays: same shape and contents, at an arbitrary index)."""
    if x is y: return T.TRUE
    if isinstance(x, SArr) and isinstance(y, SArr):
        if x.ndim != y.ndim: return T.FALSE
        sh = T.and_(*[T.eq(lift(a), lift(b)) for a, b in zip(x.shape, y.shape)])
        i = [T.fresh("g", "I") for _ in x.shape]
        h = T.and_(*[T.and_(T.le(T.const(0), k), T.lt(k, lift(n))) for k, n in zip(i, x.shape)])
        return T.and_(sh, T.implies(h, same(x.at(*i), y.at(*i), depth + 1)))
    if isinstance(x, T.Term) or isinstance(y, T.Term):
        if not T.liftable(x) or not T.liftable(y): return T.FALSE
        return T.eq(lift(x), lift(y))
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return T.and_(*[same(a, b, depth + 1) for a, b in zip(x, y)]) if len(x) == len(y) else T.FALSE
    if isinstance(x, dict) and isinstance(y, dict):
        return T.and_(*[same(x[k], y[k], depth + 1) for k in sorted(x)]) if sorted(x) == sorted(y) else T.FALSE
    if isinstance(x, Sparse) or isinstance(y, Sparse): return T.FALSE
    if type(x) is type(y) and hasattr(x, "__dict__") and not callable(x) and depth < 6: return same(vars(x), vars(y), depth + 1)
    try: return lift(bool(x == y))
    except Exception: return T.FALSE


def freeze(x, depth=0):
    """A copy of the value x that later writes through x do not reach."""
    if isinstance(x, SArr): return SArr.of(x.shape, x.frozen(), x.store.obj)
    if isinstance(x, list): return [freeze(v, depth + 1) for v in x]
    if isinstance(x, tuple): return tuple(freeze(v, depth + 1) for v in x)
    if isinstance(x, dict): return {k: freeze(v, depth + 1) for k, v in x.items()}
    if type(x).__name__ == "Uncertainty":
        r = object.__new__(type(x))
        r.__dict__.update({k: freeze(v, depth + 1) for k, v in vars(x).items()})
        return r
    return x


def snapshot(mu):
    """Values of every part of a match-up object (frame condition)."""
    return {k: freeze(v) for k, v in vars(mu).items()}


def unchanged(mu, d):
    """Names of the parts whose value is not (provably) the one in the snapshot."""
    c = ctx.current()
    bad = []
    for k in sorted(set(d) | set(vars(mu))):
        if k not in d or k not in vars(mu): bad.append(k)
        elif c.prover.prove(c.pc, same(freeze(vars(mu)[k]), d[k]))[0] != "valid": bad.append(k)
    return bad


TRUSTED = ["scipy CSR matrices by their contract: .dot and .T.dot are the products with the matrix and its transpose",
           "sensor models by the contract C13-C15 establish: row-wise measurand and its exact derivatives; adjustment models: element-wise value and derivative",
           "time stamps are opaque numbers"]
