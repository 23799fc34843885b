"""The input checker reports an error exactly for files that break the format.

Pre: a symbolic match-up file (symbolic number of match-ups and matrix sizes, numbers of variables and matrices fixed per
structure) that follows the format, or such a file with one defect of a given kind at an arbitrary place.  main and the check_*
functions run on the model of the files.  Valid: main reports nothing; defect: main reports an error."""
import functools, itertools
from pyvc import terms as T, ctx, npmodel
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = N.TRUSTED + ["max of an array (uninterpreted, the same for the code and the precondition)"]
ASSUMPTIONS = ["structures: up to 3 variables per sensor, up to 2 weighting matrices and 3 uncertainty vectors; assignments of matrices to variables enumerated for 1+2 variables",
               "negative number of non-zeros of a matrix and mixtures of several defects: run-time cases only"]
FUN = ["harmonisation_input_checker." + f for f in ("main", "check_variable_included", "check_variable_dtype", "check_variable_dimension", "check_attributes", "check_w_matrix_variable_dimensions",
                                                    "check_variable_values", "check_w_variable_values", "check_uncertainty_assignment")]
REQ = ["X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2", "uncertainty_type1", "uncertainty_type2"]
WV = ["w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_val", "u_matrix_use1", "u_matrix_use2"]
DT = {"f8": "float64", "f4": "float32", "i4": "int32", "i8": "int64", "i2": "int16"}


class Type(str):
    """numpy dtype by name."""
    name = property(lambda self: DT[str.__str__(self)])
    kind = property(lambda self: str.__str__(self)[0])
    def __str__(self): return self.name
    def __eq__(self, o): return str.__eq__(self, o) or (isinstance(o, str) and self.name == o)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)


class Var(object):
    __pyvc_mutable__ = True

    def __init__(self, name, dtype, dims, arr): self.name, self.dtype, self.dimensions, self.arr, self.shape, self.ndim = name, Type(dtype), tuple(dims), arr, arr.shape, arr.ndim
    def _getdims(self): return self.dimensions
    def get_dims(self): return tuple(N.Dim(d, n) for d, n in zip(self.dimensions, self.shape))
    def __symlen__(self): return self.arr.shape[0]

    def __getitem__(self, key):
        r = self.arr[key]
        return r.copy() if isinstance(r, SArr) else r

    def __pyvc_array__(self): return self[:]


class Spec(object):
    """A file to be: dimensions, attributes and variables, before and after a defect."""

    def __init__(self, c, types, use=None, dtypes=None, extra=(0, 0)):
        self.extra = extra
        self.c, self.types, self.use = c, types, use
        self.n = T.sym("M", "I")
        c.assume(T.le(T.const(1), self.n))
        self.m = [len(t) for t in types]
        self.dims = {"M": self.n, "m1": self.m[0], "m2": self.m[1]}
        self.attrs = {"sensor_1_name": "n19", "sensor_2_name": "n15"}
        self.vars, self.forms = {}, [list(t) for t in types]
        self.dt = dtypes or {}
        for s in (1, 2):
            m = self.m[s - 1]
            self.put("X%d" % s, ("M", "m%d" % s))
            self.put("Ur%d" % s, ("M", "m%d" % s), lambda i, j, s=s: self.by(j, [self.pos("ur%d_%d" % (s, q), i) if f in (1, 2) else T.real(0) for q, f in enumerate(self.forms[s - 1])]))
            self.put("Us%d" % s, ("M", "m%d" % s), lambda i, j, s=s: self.by(j, [self.pos("us%d_%d" % (s, q), i) if f in (2, 4) else T.real(0) for q, f in enumerate(self.forms[s - 1])]))
            self.put("uncertainty_type%d" % s, ("m%d" % s,), N.M_const(types[s - 1]), "i4")
            self.put("time%d" % s, ("M",))
        for nm in ("K", "Kr", "Ks"): self.put(nm, ("M",))
        c.fact("Kr", lambda a, t: T.and_(T.le(T.real(0), t), T.le(T.real(0), T.app("Ks", [a[0]])), T.or_(T.lt(T.real(0), t), T.lt(T.real(0), T.app("Ks", [a[0]])))))
        c.fact("Ks", lambda a, t: T.and_(T.le(T.real(0), t), T.le(T.real(0), T.app("Kr", [a[0]])), T.or_(T.lt(T.real(0), t), T.lt(T.real(0), T.app("Kr", [a[0]])))))
        if use: self.matrices(*use)

    def by(self, j, xs):
        r = xs[-1]
        for q in range(len(xs) - 2, -1, -1): r = T.ite(T.eq(j, T.const(q)), xs[q], r)
        return r

    def pos(self, name, *a):
        """A positive quantity."""
        if name not in self.c.prover.facts: self.c.fact(name, lambda a, t: T.lt(T.real(0), t))
        return T.app(name, a)

    def put(self, name, dims, value=None, dtype="f8"):
        shape = tuple(self.dims[d] for d in dims)
        if value is None: value = N.sym_array(name, shape)
        elif not isinstance(value, SArr): value = SArr.of(shape, value)
        self.vars[name] = [self.dt.get(name, dtype), tuple(dims), value]

    def matrices(self, w, u):
        c = self.c
        self.nw, self.nu = max([1] + [x for r in w for x in r]), max([1] + [x for r in u for x in r])
        self.nw, self.nu = self.nw + self.extra[0], self.nu + self.extra[1]
        self.nnz, self.cnt = [T.sym("nnz%d" % k, "I") for k in range(self.nw)], [T.sym("cnt%d" % k, "I") for k in range(self.nu)]
        c.assume(*[T.le(T.const(1), x) for x in self.nnz + self.cnt])
        tot = lambda xs: functools.reduce(lambda a, b: a + b, xs)
        self.dims.update(w_matrix_count=self.nw, w_matrix_row_count=self.n + 1, w_matrix_nnz_sum=tot(self.nnz), u_matrix_count=self.nu, u_matrix_row_count_sum=tot(self.cnt))
        for nm in ("wcol", "wrow"): c.fact(nm, lambda a, t: T.le(T.const(0), t))
        self.put("w_matrix_nnz", ("w_matrix_count",), npmodel._from_seq(self.nnz), "i4")
        self.put("w_matrix_row", ("w_matrix_count", "w_matrix_row_count"), lambda k, r: T.app("wrow", [k, r], "I"), "i4")
        self.put("w_matrix_col", ("w_matrix_nnz_sum",), lambda i: T.app("wcol", [i], "I"), "i4")
        self.put("w_matrix_val", ("w_matrix_nnz_sum",), lambda i: T.app("wval", [i]))
        self.put("u_matrix_row_count", ("u_matrix_count",), npmodel._from_seq(self.cnt), "i4")
        self.put("u_matrix_val", ("u_matrix_row_count_sum",), lambda i: self.pos("uval", i))
        for s in (1, 2):
            self.put("w_matrix_use%d" % s, ("m%d" % s,), N.M_const(w[s - 1]), "i4")
            self.put("u_matrix_use%d" % s, ("m%d" % s,), N.M_const(u[s - 1]), "i4")

    def widths(self, skip=()):
        """Every matrix is as wide as the vectors paired with it are long."""
        w, u = self.use
        for a, b in sorted({(x, y) for p, q in zip(w, u) for x, y in zip(p, q) if x > 0 and y > 0}):
            e = T.eq(self.width(a - 1), self.cnt[b - 1])
            self.c.assume(T.not_(e) if (a, b) in skip else e)

    def width(self, k):
        col = self.vars["w_matrix_col"][2]
        lo = functools.reduce(lambda a, b: a + b, self.nnz[:k], T.const(0))
        return lift(npmodel._extreme("max", col[lo:lo + self.nnz[k]])) + 1

    def open(self, fs):
        d = N.Dataset(fs, "in.nc")
        for k, v in self.attrs.items(): setattr(d, k, v)
        for k, n in self.dims.items(): d.createDimension(k, n)
        for k, (t, dm, a) in self.vars.items(): d.variables[k] = Var(k, t, dm, a)
        d.close()
        fs.files["in.nc"] = d


def run(P, mod, S, c, valid):
    S.open(P.fs)
    keep = {k: v for k, v in vars(mod).items() if k.startswith("check_") and callable(v)}
    for k, f in keep.items(): setattr(mod, k, guard(f, valid))
    try: return ctx.call(mod.main, "in.nc")
    finally:
        for k, f in keep.items(): setattr(mod, k, f)


def guard(f, valid):
    """Errors that come from the models rather than from the file are no verdict of the checker."""
    @functools.wraps(f)
    def g(*a, **k):
        try: return f(*a, **k)
        except (TypeError, ValueError, AttributeError) as e:
            t = e.__traceback__
            while t.tb_next: t = t.tb_next
            if "/pyvc/" in t.tb_frame.f_code.co_filename and (valid or isinstance(e, (TypeError, AttributeError))): raise T.Unsupported("model gap: %s" % e)
            raise
    return g


PLAIN = [("one and two", ((1,), (1, 2))), ("reference first", ((2,), (1, 1, 2))), ("independent", ((1, 1), (1, 1)))]
WITH = [("shared and own vectors", ((1, 3), (3, 4)), (((0, 1), (2, 2)), ((0, 1), (2, 3)))),
        ("reference series", ((1,), (3, 3, 1)), (((0,), (1, 1, 0)), ((0,), (1, 2, 0)))),
        ("one matrix for both", ((4,), (3,)), (((1,), (1,)), ((1,), (2,))))]


def harnesses(tree, tier):
    P = N.program(tree)
    M.complete(P)
    mod = P.load_path("tools/harmonisation_input_checker.py")
    out = []

    def add(name, types, use, defect, valid=False, dtypes=None, extra=(0, 0)):
        def h(c):
            P.fs.__init__()
            S = Spec(c, types, use, dtypes, extra)
            skip = defect(c, S) if defect else ()
            if use and "w_matrix_col" in S.vars: S.widths(skip or ())
            r = run(P, mod, S, c, valid)
            bad = T.boolify(lift(r)) if isinstance(r, T.Term) else lift(bool(r))
            c.oblige("no error is reported" if valid else "an error is reported", T.not_(bad) if valid else bad)
            c.oblige("the file is closed", lift(P.fs.files["in.nc"]._state == "closed"))
        out.append(Harness(name, h, FUN, structure="variables %s" % (types,)))
    alls = [(nm, t, None) for nm, t in PLAIN] + WITH
    for nm, t, u in alls:
        add("valid: " + nm, t, u, None, True)
        add("valid, single precision: " + nm, t, u, None, True, {k: "f4" for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2", "w_matrix_val", "u_matrix_val")})
    for nm, t, u in [alls[0], alls[3], alls[4]]:
        for v in REQ + (WV if u else []):
            for kind, f in (("missing", missing), ("dimension", dimension), ("type", wrong_type)): add("%s of %s: %s" % (kind, v, nm), t, u, functools.partial(f, v=v))
        for a in ("sensor_1_name", "sensor_2_name"): add("attribute %s missing: %s" % (a, nm), t, u, lambda c, S, a=a: S.attrs.pop(a) and None)
        add("same sensor twice: " + nm, t, u, same_name)
        for v in ("Kr", "Ks", "Ur1", "Ur2", "Us1", "Us2"): add("negative %s: %s" % (v, nm), t, u, functools.partial(negative, v=v))
        add("no uncertainty of K: " + nm, t, u, no_K)
    for nm, t, u in alls:
        for s in (1, 2):
            for j, f in enumerate(t[s - 1]):
                for g in (0, 1, 2, 3, 4, 5):
                    if g != f: add("sensor %d variable %d labelled %d for %d: %s" % (s, j, g, f, nm), t, u, functools.partial(label, s=s, j=j, g=g))
                if f in (1, 2): add("sensor %d variable %d without random uncertainty somewhere: %s" % (s, j, nm), t, u, functools.partial(spoil, v="Ur", s=s, j=j))
                add("sensor %d variable %d systematic uncertainty inconsistent somewhere: %s" % (s, j, nm), t, u, functools.partial(spoil, v="Us", s=s, j=j))
    for nm, t, u in WITH:
        for d in ("w_matrix_row_count", "w_matrix_nnz_sum", "u_matrix_row_count_sum"): add("size of %s: %s" % (d, nm), t, u, functools.partial(size, d=d))
        for e in ((1, 0), (0, 1), (1, 1)): add("%d more matrices and %d more vectors than any variable uses: %s" % (e + (nm,)), t, u, None, extra=e)
        for a, b in sorted({(x, y) for p, q in zip(*u) for x, y in zip(p, q) if x > 0}): add("width of matrix %d and vector %d: %s" % (a, b, nm), t, u, lambda c, S, a=a, b=b: ((a, b),))
        for v, n in (("u_matrix_val", None), ("w_matrix_col", None), ("w_matrix_row", None)): add("%s out of range: %s" % (v, nm), t, u, functools.partial(out_of_range, v=v))
    for k, part in enumerate(split(list(assignments(3 if tier == "quick" else 4)), 12 if tier == "quick" else 48)): out.append(Harness("assignments of matrices to variables, part %d" % k, assigned(P, mod, part), FUN, max_paths=100000, structure="1 and 2 variables"))
    return out


def split(xs, n): return [xs[i::n] for i in range(n)]


def missing(c, S, v): del S.vars[v]


def dimension(c, S, v):
    t, dm, a = S.vars[v]
    if v == "w_matrix_nnz":                   # another dimension of the same size
        S.dims["other"] = S.nw
        S.put(v, ("other",), a, t)
        return
    n = S.dims["other"] = 7 if len(dm) == 2 and v[-1] == "1" or t == "i4" and v != "w_matrix_col" else T.sym("other", "I")
    if not isinstance(n, int): c.assume(T.le(T.const(1), n))
    if v.startswith(("w_matrix_use", "u_matrix_use")):      # (a valid assignment, followed by unassigned places)
        was = [a.at(q) for q in range(a.shape[0])]
        S.put(v, ("other",), N.M_const([T.lift(x).args[0] for x in was] + [0] * (n - len(was))), t)
    elif len(dm) == 1: S.put(v, ("other",), None if t[0] == "f" else N.sym_array(v, (n,), "I"), t)
    else: S.put(v, (dm[0], "other") if v[-1] == "1" else ("other", dm[1]), None, t)


def wrong_type(c, S, v):
    t = S.vars[v]
    t[0] = "i8" if t[0][0] == "i" else "i4"


def same_name(c, S): S.attrs["sensor_2_name"] = S.attrs["sensor_1_name"]


def somewhere(c, n, name="j"):
    j = T.sym(name, "I")
    c.assume(T.le(T.const(0), j), T.lt(j, lift(n)))
    c.prover.hints = list(c.prover.hints) + [j]
    return j


def negative(c, S, v):
    """A negative value somewhere, anything elsewhere."""
    t, dm, a = S.vars[v]
    j = somewhere(c, S.n)
    if len(dm) == 1:
        S.put(v, dm, lambda i: T.app("any" + v, [i]))
        c.assume(T.lt(T.app("any" + v, [j]), T.real(0)))
    else:
        q = S.dims[dm[1]] - 1
        S.put(v, dm, lambda i, k: T.app("any" + v, [i, k]))
        c.assume(T.lt(T.app("any" + v, [j, T.const(q)]), T.real(0)))
        c.prover.hints.append(j * (q + 1) + q)


def no_K(c, S):
    j = somewhere(c, S.n)
    for v in ("Kr", "Ks"):
        a = S.vars[v][2]
        S.put(v, ("M",), lambda i, a=a: T.ite(T.eq(i, j), T.real(0), a.at(i)))


def label(c, S, s, j, g):
    x = list(S.types[s - 1])
    x[j] = g
    S.put("uncertainty_type%d" % s, ("m%d" % s,), N.M_const(x), "i4")


def spoil(c, S, v, s, j):
    """At some match-up, this variable's uncertainty is not what its form requires (zero for positive, non-zero for zero)."""
    p = somewhere(c, S.n)
    t, dm, a = S.vars["%s%d" % (v, s)]
    needed = S.types[s - 1][j] in ((1, 2) if v == "Ur" else (2, 4))
    x = T.sym("wrong")
    if not needed: c.assume(T.lt(T.real(0), x))
    S.put("%s%d" % (v, s), dm, lambda i, k: T.ite(T.and_(T.eq(i, p), T.eq(k, T.const(j))), T.real(0) if needed else x, a.at(i, k)))


def size(c, S, d):
    old = lift(S.dims[d])
    S.dims[d] = n = T.sym("size", "I")
    c.assume(T.le(T.const(1), n), T.not_(T.eq(n, old)))
    for v, (t, dm, a) in list(S.vars.items()):
        if d in dm: S.vars[v][2] = SArr.of(tuple(S.dims[x] for x in dm), a.frozen())


def out_of_range(c, S, v):
    t, dm, a = S.vars[v]
    lead = [T.const(0)] * (len(dm) - 1)
    j = somewhere(c, S.dims[dm[-1]])
    x = T.sym("wrong", "R" if t[0] == "f" else "I")
    c.assume(T.le(x, T.real(0)) if t[0] == "f" else T.lt(x, T.const(0)))
    S.put(v, dm, lambda *i: T.ite(T.and_(*[T.eq(p, q) for p, q in zip(i, lead + [j])]), x, a.at(*i)), t)


def assignments(nu):
    """Every way of assigning up to two matrices and nu - 1 vectors to 1 + 2 variables (0: none)."""
    for w in itertools.product(range(3), repeat=3):
        for u in itertools.product(range(nu), repeat=3):
            if any(w) or any(u): yield w, u


def assigned(P, mod, part):
    def h(c):
        P.fs.__init__()
        case = T.sym("case", "I")
        c.assume(T.le(T.const(0), case), T.lt(case, T.const(len(part))))
        w, u = part[pick(case, len(part))]
        good = {x for x in w if x} == set(range(1, max(w) + 1)) and {x for x in u if x} == set(range(1, max(u) + 1)) and all((x > 0) == (y > 0) for x, y in zip(w, u))
        types = tuple(3 if x else 1 for x in w)
        S = Spec(c, (types[:1], types[1:]), ((w[:1], w[1:]), (u[:1], u[1:])))
        S.widths()
        r = run(P, mod, S, c, good)
        bad = T.boolify(lift(r)) if isinstance(r, T.Term) else lift(bool(r))
        c.oblige("%s %s: %s" % (w, u, "no error is reported" if good else "an error is reported"), T.not_(bad) if good else bad)
    return h


def pick(case, n):
    """One path per case (by halves)."""
    lo, hi = 0, n
    while hi - lo > 1:
        m = (lo + hi) // 2
        if bool(T.lt(case, T.const(m))): hi = m
        else: lo = m
    return lo
