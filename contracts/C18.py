"""Harmonisation results survive saving and reopening.

Pre: a result over one to three match-up series (any pairing of sensors, symbolic numbers of match-ups), parameters attributed to
sensors, a symbolic covariance matrix, residuals laid out by the match-up index structure, optional systematic errors.  save and
the constructor that reopens run on a model of the files (contracts/nc_common.py); the directory may list the files in any order.
Sensors, numbers of variables, numbers of parameters and systematic errors are the structure, everything else symbolic."""
import itertools
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

MOD = M.PKG + "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult"
FUN = ["HarmonisationResult." + f for f in ("save", "write_harmonisation_output_file", "write_harmonisation_residual_files", "__init__", "open_harmonisation_output_file",
                                            "open_harmonisation_residual_files", "_get_harm_output_path", "_get_harm_res_paths")]
TRUSTED = N.TRUSTED + ["netCDF4.stringtochar / chartostring and numpy string arrays of a fixed width: inverse of each other on names padded to that width"]
ASSUMPTIONS = ["structures: 1 to 3 series (thorough: 4), up to 4 sensors of 1 to 3 variables, 1 to 7 parameters, 0 to 3 systematic errors; single precision of stored systematic errors not modelled"]
NAMES = ("m02", "n19", "n15", "n17")


class Strings(list):
    """numpy array of strings of fixed width (longer ones are cut)."""
    width = None

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return strings(r, self.width) if isinstance(k, slice) else r


def strings(xs, width):
    r = Strings(str(x)[:width] for x in xs)
    r.width = width
    return r


class Chars(object):
    """Characters of names: one row per name."""
    def __init__(self, rows, width): self.rows, self.width, self.shape, self.ndim = list(rows), width, (len(rows), width), 2

    def __pyvc_array__(self): raise T.Unsupported("characters as numbers")
    def __symlen__(self): return len(self.rows)

    def __getitem__(self, k):
        if k == slice(None): return Chars(self.rows, self.width)
        raise T.Unsupported("indexing of characters")


def stringtochar(x, **k):
    if not isinstance(x, Strings): raise T.Unsupported("stringtochar")
    return Chars([s.rstrip("\0") for s in x], x.width)


def chartostring(x, **k):
    if not isinstance(x, Chars): raise T.Unsupported("chartostring")
    return strings(x.rows, x.width)


def load(tree):
    P = N.program(tree)
    M.complete(P)
    mod = P.load(MOD)
    mod.stringtochar, mod.chartostring = stringtochar, chartostring
    asarray = mod.asarray

    def asarray_(x, dtype=None, **k):
        if isinstance(dtype, str) and dtype[:1] in "SU" and dtype[1:].isdigit() and all(isinstance(s, str) for s in x): return strings(x, int(dtype[1:]))
        return asarray(x, **k) if dtype is None else asarray(x, dtype=dtype, **k)
    mod.asarray = asarray_
    return P, mod


def harnesses(tree, tier):
    P, mod = load(tree)
    out, z = [], 0
    for k in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for g in N.graphs(k, 4):
            if k == 4 and z % 3: z += 1; continue
            vres = z % 5 != 3
            out.append(Harness("save and reopen: series %s%s" % (" ".join("%s-%s" % (NAMES[a], NAMES[b]) for a, b in g), "" if vres else ", no state residuals"),
                               make(P, mod, g, (1, 2, 3, 7)[z % 4], z % 4, vres, z), FUN, structure="series pairs %s" % (g,)))
            z += 1
    for npar in (1, 2, 3, 7):
        for nsys in (0, 2): out.append(Harness("save and reopen without statistics or residuals: %d parameters, %d systematic errors" % (npar, nsys), alone(P, mod, npar, nsys), FUN[:2] + FUN[3:5] + FUN[6:7], structure="%d parameters" % npar))
    return out


def alone(P, mod, npar, nsys):
    def h(c):
        P.fs.__init__()
        R = mod.HarmonisationResult()
        ps = [NAMES[(i + nsys) % 3] for i in range(npar)]
        R.parameter, R.parameter_sensors = N.sym_array("a", (npar,)), list(ps)
        R.parameter_covariance_matrix = N.sym_array("V", (npar, npar))
        syss = list(NAMES[:nsys])
        if nsys:
            R.additional_variables["systematic_errors"] = {"data": N.sym_array("s", (nsys,)), "dim": "s", "dtype": "f4"}
            R.additional_variables["systematic_error_sensors"] = {"data": list(syss), "dim": "s", "dtype": "S1"}
        ctx.call(R.save, "out/harm_pc.nc", save_residuals=False)
        c.oblige("one file, closed", lift(list(P.fs.files) == ["out/harm_pc.nc"] and P.fs.files["out/harm_pc.nc"]._state == "closed"))
        P.fs.dirs["out"] = ["harm_pc.nc"]
        X = ctx.call(mod.HarmonisationResult, "out", open_residuals=False)
        parameters(c, X, ps, None, syss, {}, npar, nsys)
        c.oblige("no statistics", lift(X.cost is None and X.cost_dof is None and X.cost_p_value is None))
        c.oblige("no attributes", lift(not X.additional_attributes))
    return h


class Series(object): pass


def make(P, mod, g, npar, nsys, vres, z):
    def h(c):
        P.fs.__init__()
        ms = [(1, 2, 3, 2)[(i + z // 3) % 4] for i in range(4)]
        files = []
        for q, (a, b) in enumerate(g):
            f = Series()
            f.names, f.m, f.M = (NAMES[a], NAMES[b]), (ms[a], ms[b]), T.sym("M%d" % q, "I")
            c.assume(T.le(T.const(1), f.M))
            files.append(f)
        L = N.Layout(files)
        idx = lambda: dict(Nm=list(L.Nm), cNm=list(L.cNm), Im=[list(x) for x in L.Im], sensors=list(L.sensors), sensor_ms=list(L.ms), n_sensor=list(L.n_sensor), n_mu=list(L.n_mu), n_cov=list(L.n_cov), N_var=list(L.N_var), idx=list(L.idx))
        R = mod.HarmonisationResult()
        ps = [L.sensors[(3 * i + z) % len(L.sensors)] for i in range(npar)]
        R.parameter, R.parameter_sensors = N.sym_array("a", (npar,)), list(ps)
        R.parameter_covariance_matrix = N.sym_array("V", (npar, npar))
        cost = [T.sym(x) for x in ("cost", "dof", "p")]
        R.cost, R.cost_dof, R.cost_p_value = cost
        R.idx = idx()
        R.ks_res = N.sym_array("k", (L.cNm[-1],))
        R.values_res = N.sym_array("v", (L.idx[-1],)) if vres else None
        R.additional_attributes = {"software": "FO", "software_version": "1_1", "job_id": "7"}
        R.additional_variables = {}
        syss = [L.sensors[(i + z) % len(L.sensors)] for i in range(nsys)]
        if nsys:
            R.additional_variables["systematic_errors"] = {"data": N.sym_array("s", (nsys,)), "dim": "s", "dtype": "f4", "Description": "Fitted systematic errors"}
            R.additional_variables["systematic_error_sensors"] = {"data": list(syss), "dim": "s", "dtype": "S1", "Description": "Sensors"}
        ctx.call(R.save, "out/harm_FO_1_1_set.nc")
        names = sorted(p[4:] for p in P.fs.files if p.startswith("out/"))
        c.oblige("one file for the parameters and one per series", lift(len(P.fs.files) == len(names) == 1 + len(g)))
        c.oblige("the files are closed", lift(all(d._state == "closed" for d in P.fs.files.values())))
        orders = list(itertools.permutations(names))
        for order in [orders[0], orders[-1]] + ([orders[z % len(orders)]] if len(orders) > 2 else []):
            P.fs.dirs["out"] = list(order)
            restored(c, L, ctx.call(mod.HarmonisationResult, "out"), ps, cost, syss, R.additional_attributes, vres, npar, nsys, len(g))
        X = ctx.call(mod.HarmonisationResult, "out", open_residuals=False)
        parameters(c, X, ps, cost, syss, R.additional_attributes, npar, nsys)
    return h


def strs(x):
    if isinstance(x, Chars): x = chartostring(x)
    if not isinstance(x, (list, tuple)) or not all(isinstance(s, str) for s in x): raise T.Unsupported("names of another kind")
    return [s.strip() for s in x]


def array(c, name, x, shape, at):
    if not isinstance(x, SArr): raise T.Unsupported("values of another kind")
    c.oblige(name + ": shape", T.and_(lift(x.ndim == len(shape)), *[T.eq(lift(a), lift(b)) for a, b in zip(x.shape, shape)]))
    if x.ndim != len(shape): return
    ix = [M.generic(c, "x%d" % d, n) for d, n in enumerate(shape)]
    c.oblige(name, T.eq(x.at(*[t for t, _ in ix]), at(*[t for t, _ in ix])), [f for _, hs in ix for f in hs])


def parameters(c, X, ps, cost, syss, attrs, npar, nsys):
    array(c, "parameters", X.parameter, (npar,), lambda i: T.app("a", [i]))
    c.oblige("parameter sensors", lift(strs(X.parameter_sensors) == ps))
    array(c, "parameter covariance", X.parameter_covariance_matrix, (npar, npar), lambda i, j: T.app("V", [i, j]))
    if cost is not None: c.oblige("cost, degrees of freedom and probability", T.and_(*[T.eq(lift(a), b) for a, b in zip((X.cost, X.cost_dof, X.cost_p_value), cost)]))
    c.oblige("attributes", lift(all(X.additional_attributes.get(k) == v for k, v in attrs.items())))
    want = {"systematic_errors", "systematic_error_sensors"} if nsys else set()
    c.oblige("systematic errors are restored and nothing else", lift(set(X.additional_variables) == want))
    if nsys and set(X.additional_variables) == want:
        array(c, "systematic errors", X.additional_variables["systematic_errors"], (nsys,), lambda i: T.app("s", [i]))
        c.oblige("sensors of the systematic errors", lift(strs(X.additional_variables["systematic_error_sensors"]) == syss))


def restored(c, L, X, ps, cost, syss, attrs, vres, npar, nsys, nser):
    parameters(c, X, ps, cost, syss, attrs, npar, nsys)
    I = X.idx
    c.oblige("every series is restored", lift(len(I["Nm"]) == len(I["Im"]) == nser))
    if len(I["Nm"]) != nser or len(I["Im"]) != nser: return
    tot = T.const(0)
    good = [T.eq(lift(I["cNm"][0]), tot)]
    for q in range(nser):
        tot = tot + lift(I["Nm"][q])
        good.append(T.eq(lift(I["cNm"][q + 1]), tot))
    c.oblige("series follow one another", T.and_(lift(len(I["cNm"]) == nser + 1), *good))
    c.oblige("number of adjustment factor residuals", T.and_(lift(X.ks_res.ndim == 1), T.eq(lift(X.ks_res.shape[0]), L.cNm[-1])))
    pairs = [[str(I["sensors"][q]) for q in I["Im"][s]] for s in range(nser)]
    left, m = list(range(nser)), {}
    for s in range(nser):
        cand = [t for t in left if [L.sensors[q] for q in L.Im[t]] == pairs[s]]
        def same(t):
            i, hi = M.generic(c, "i", L.Nm[t])
            return T.and_(T.eq(lift(I["Nm"][s]), L.Nm[t]), T.eq(X.ks_res.at(lift(I["cNm"][s]) + i), T.app("k", [L.cNm[t] + i]))), hi
        ok = [t for t in cand if len(cand) == 1 or c.prover.prove(c.pc + same(t)[1], same(t)[0])[0] == "valid"]
        t = (ok or cand or [None])[0]
        if t is None:
            c.oblige("series %s was saved" % "-".join(pairs[s]), T.FALSE)
            return
        g, hi = same(t)
        c.oblige("adjustment factor residuals of series %s under their own series" % "-".join(pairs[s]), g, hi)
        m[s] = t
        left.remove(t)
    if not vres:
        c.oblige("no state residuals", lift(X.values_res is None))
        return
    c.oblige("state residuals are restored", lift(X.values_res is not None))
    if X.values_res is None: return
    nb = len(L.blocks)
    c.oblige("one block per variable and sensor of each series", T.and_(lift(len(I["n_sensor"]) == len(I["n_mu"]) == len(I["n_cov"]) == nb and len(I["idx"]) == nb + 1 and X.values_res.ndim == 1), T.eq(lift(X.values_res.shape[0]), lift(I["idx"][-1]))))
    if not len(I["n_sensor"]) == len(I["n_mu"]) == len(I["n_cov"]) == len(I["idx"]) - 1 == nb: return
    seen = set()
    for b in range(nb):
        s = int(I["n_mu"][b]) - 1
        name, v = str(I["sensors"][int(I["n_sensor"][b])]), int(I["n_cov"][b])
        if s not in m or name not in pairs[s] or (v - 1, m[s], pairs[s].index(name)) not in L.blocks:
            c.oblige("blocks are those saved", T.FALSE)
            continue
        b0 = L.blocks.index((v - 1, m[s], pairs[s].index(name)))
        seen.add(b0)
        i, hi = M.generic(c, "i", L.Nm[m[s]])
        lo, hi_ = lift(I["idx"][b]), lift(I["idx"][b + 1])
        c.oblige("state residuals of series %d, %s, variable %d" % (s, name, v), T.and_(T.eq(hi_ - lo, L.Nm[m[s]]), T.eq(X.values_res.at(lo + i), T.app("v", [L.idx[b0] + i]))), hi)
    c.oblige("every block is restored once", lift(len(seen) == nb))
