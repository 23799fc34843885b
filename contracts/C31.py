"""Converters keep every accepted match-up's own data.

AVHRR: the converter runs on a symbolic input file (any number of match-ups, any contents); which match-ups are accepted is
any set (the enumeration of the accepted ones is scipy-free: position r of a selection by a mask is the r-th match-up the mask
accepts).  Microwave files and the simulated text files are separate harnesses.  The mask itself (C20), the file writer (C05), the
weighting matrices (C19) and the packing of matrices (C04) are represented by their contracts."""
import logging
from pyvc import terms as T, ctx
from pyvc.arr import SArr, is_bool
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = N.TRUSTED + ["selection by a mask lists the accepted positions in increasing order; equal masks list the same positions",
                       "shutil.copyfile: an independent file of the same contents; os.makedirs",
                       "numpy.loadtxt and text lines: the numbers written in them"]
ASSUMPTIONS = ["real arithmetic", "at least one match-up is accepted", "the harmonisation-file checker called at the end only reads (C22)", "series of the simulated files: 1 to 3 per structure, sizes symbolic"]

SPACE, TARGET = ("ref_cal_Sp_Ur", "cal_Sp_Ur"), ("ref_cal_BB_Ur", "cal_BB_Ur")
RENAMED = [("latitude", "lat2"), ("longitude", "lon2"), ("satza", "vza2"), ("solza", "sza2"), ("ref_latitude", "lat1"), ("ref_longitude", "lon1"), ("ref_satza", "vza1"), ("ref_solza", "sza1")]


class Positions(object):
    """Positions selected by masks: equal masks share one enumeration."""

    def __init__(self): self.known = []

    def __call__(self, mask):
        pr = ctx.current()
        i = T.fresh("i", "I")
        n = lift(mask.shape[0])
        for f, size, out in self.known:
            if T.eq(size, n) is T.TRUE and pr.prover.prove(pr.pc, T.implies(T.and_(T.le(T.const(0), i), T.lt(i, n)), T.eq(T.boolify(f(i)), T.boolify(mask.at(i)))))[0] == "valid": return out
        q = len(self.known)
        f = mask.frozen()
        m = T.sym("accepted%d" % q, "I")
        pr.assume(T.le(T.const(1), m), T.le(m, n))
        name = "chosen%d" % q
        pr.fact(name, lambda a, t: T.implies(T.and_(T.le(T.const(0), a[0]), T.lt(a[0], m)), T.and_(T.le(T.const(0), t), T.lt(t, n), T.boolify(f(t)))))
        out = SArr.of((m,), lambda r: T.app(name, [lift(r)], "I"))
        self.known.append((f, n, out))
        return out


def alike(c, name, x, y):
    """Two arrays hold the same values, at an arbitrary position."""
    from pyvc.npmodel import asarray
    if not isinstance(x, SArr):
        try: x = asarray(x)
        except Exception: pass
    if not isinstance(x, SArr): raise T.Unsupported("%s of another kind" % name)
    if x.ndim != y.ndim and x.ndim == 1 and y.ndim == 2 and y.shape[1] in (1,): x = SArr.of((x.shape[0], 1), lambda i, j, f=x.frozen(): f(i))     # (one column)
    c.oblige(name + ": shape", T.and_(lift(x.ndim == y.ndim), *[T.eq(lift(a), lift(b)) for a, b in zip(x.shape, y.shape)]))
    if x.ndim != y.ndim: return
    idx, hy = [], []
    for n in y.shape:
        i, h = M.generic(c, "i", lift(n))
        idx.append(i); hy += h
    c.oblige(name + ": element for element", T.eq(lift(x.at(*idx)), lift(y.at(*idx))), hy)


def holds(c, x, y):
    """The same, as a term over fresh positions (for use in a decision)."""
    if not (isinstance(x, SArr) and isinstance(y, SArr) and x.ndim == y.ndim): raise T.Unsupported("arrays of another kind")
    idx = [T.fresh("i", "I") for _ in x.shape]
    inside = T.and_(*[T.and_(T.le(T.const(0), i), T.lt(i, lift(n))) for i, n in zip(idx, y.shape)])
    return T.and_(*[T.eq(lift(a), lift(b)) for a, b in zip(x.shape, y.shape)] + [T.implies(inside, T.eq(lift(x.at(*idx)), lift(y.at(*idx))))])


def copied(x): return SArr.of(x.shape, x.frozen()) if isinstance(x, SArr) else x


class Built(object):
    """A weighting matrix by its contract (C19): made from these times, this interval and window."""

    def __init__(self, gen, times, dt, k, weights):
        self.times, self.dt, self.k, self.weights = copied(times), dt, k, copied(weights)
        pr = ctx.current()
        same = [g for g in gen.made if pr.prover.prove(pr.pc, T.and_(holds(None, g.times, self.times), T.eq(lift(g.dt), lift(dt)), T.eq(lift(g.k), lift(k))))[0] == "valid"]
        self.number = same[0].number if same else len(gen.made)
        self.columns = T.sym("columns%d" % self.number, "I")
        pr.assume(T.le(T.const(1), self.columns))
        self.shape = (times.shape[0], self.columns)
        gen.made.append(self)

    def dot(self, v):
        if not isinstance(v, SArr) or v.ndim != 1: raise T.Unsupported("product with something else than a vector")
        number = self.number
        if not ctx.current().decide(T.eq(lift(v.shape[0]), self.columns)): raise ValueError("dimension mismatch")
        f, m = v.frozen(), self.columns

        def at(i):
            r = T.fresh("r", "I")
            return T.sum_(r, 0, m, T.app("W%d" % number, [lift(i), r]) * f(r))
        return SArr.of((self.shape[0],), at)


class Generator(object):
    def __init__(self): self.made, self.vectors = [], []

    def __call__(self, matchup_times, scanline_time, kernel_uncertainty, weights=None, kernel_size=None):
        u = kernel_uncertainty
        k = weights.shape[0] if weights is not None else kernel_size if kernel_size is not None else u.shape[1]
        W = Built(self, matchup_times, scanline_time, k, weights)
        v = Vector(len(self.vectors), W, copied(u))
        self.vectors.append(v)
        return W, v.array


class Vector(object):
    """The uncertainty vector of a matrix, from these uncertainties."""

    def __init__(self, q, W, u):
        self.W, self.u, self.name = W, u, "line%d" % q
        self.array = SArr.of((W.columns,), lambda r: T.app(self.name, [lift(r)]) if isinstance(u, SArr) else lift(u))


class Packer(object):
    """return_w_matrix_variables by its contract (C04): what the six variables were packed from."""

    def __init__(self): self.packed = []

    def __call__(self, ws, us):
        q = len(self.packed)
        self.packed.append((list(ws), [copied(u) if isinstance(u, SArr) else u for u in us]))
        return tuple(Packed(q, nm) for nm in ("w_matrix_val", "w_matrix_row", "w_matrix_col", "w_matrix_nnz", "u_matrix_row_count", "u_matrix_val"))


class Packed(object):
    def __init__(self, q, nm): self.q, self.nm = q, nm


def numbers(x):
    if not (isinstance(x, SArr) and x.ndim == 1): raise T.Unsupported("assignment of matrices to variables")
    xs = [lift(x.at(q)) for q in range(int(x.shape[0]))]
    if not all(y.op == "const" for y in xs): raise T.Unsupported("assignment of matrices to variables")
    return [int(y.args[0]) for y in xs]


def matrices(c, name, gen, packer, given, uses, want):
    """The matrix variables given are those packed from the matrices wanted.
    uses: w_use1, w_use2, u_use1, u_use2; want[s]: per variable None or (times, dt, window uncertainties or one value, weights)."""
    ok = all(isinstance(g, Packed) for g in given)
    if not ok: raise T.Unsupported("matrix variables of another kind")
    c.oblige(name + ": the packed variables in their places", lift([g.nm for g in given] == ["w_matrix_val", "w_matrix_row", "w_matrix_col", "w_matrix_nnz", "u_matrix_row_count", "u_matrix_val"] and len(set(g.q for g in given)) == 1))
    ws, us = packer.packed[given[0].q]
    for s in (0, 1):
        wu, uu = numbers(uses[s]), numbers(uses[2 + s])
        c.oblige("%s: sensor %d: one assignment per variable" % (name, s + 1), lift(len(wu) == len(uu) == len(want[s])))
        for q, (a, b, w) in enumerate(zip(wu, uu, want[s])):
            nm = "%s: sensor %d variable %d" % (name, s + 1, q)
            if w is None:
                c.oblige(nm + " has no matrix", lift(a == 0 and b == 0))
                continue
            good = 1 <= a <= len(ws) and 1 <= b <= len(us)
            c.oblige(nm + " has a matrix and a vector", lift(good))
            if not good: continue
            W, v = ws[a - 1], us[b - 1]
            if not isinstance(W, Built): raise T.Unsupported("matrix of another kind")
            times, dt, u, weights = w
            alike(c, nm + ": times its matrix is made from", W.times, times)
            c.oblige(nm + ": scan-line interval", T.eq(lift(W.dt), lift(dt)))
            if isinstance(weights, SArr):
                if W.weights is None: c.oblige(nm + ": weights", T.FALSE)
                else: alike(c, nm + ": weights", W.weights, weights)
            else:
                c.oblige(nm + ": equal weights", lift(W.weights is None))
                if weights is not None: c.oblige(nm + ": window", T.eq(lift(W.k), lift(weights)))
            c.oblige(nm + ": one uncertainty per column", T.eq(lift(v.shape[0]), W.columns))
            if isinstance(u, SArr):
                src = source(gen, v)
                if src is None: raise T.Unsupported("uncertainty vector made in another way")
                alike(c, nm + ": uncertainties of its vector", src.u, u)
                c.oblige(nm + ": vector of the same matrix", lift(src.W.number == W.number))
            else:
                r, h = M.generic(c, "r", W.columns)
                c.oblige(nm + ": the uncertainty of its vector", T.eq(lift(v.at(r)), lift(u)), h)


def source(gen, v):
    r = T.sym("r!", "I")
    for x in gen.vectors:
        if isinstance(x.u, SArr) and lift(v.at(r)) is lift(x.array.at(r)): return x
    return None


def harnesses(tree, tier):
    logging.disable(logging.CRITICAL)
    out = []
    for band in (37, 11, 12):
        for ref in (True, False):
            for lim in (False, True):
                out.append(Harness("AVHRR %d%s%s" % (band, ", reference series" if ref else "", ", temperature limit" if lim else ""), avhrr(tree, band, ref, lim), ["AVHRR_to_updated_spec." + f for f in ("main", "read_matchup_data", "return_additional_variables", "return_w_matrices", "prepare_directories", "get_new_name")],
                                   uses=["return_valid_averages_mask", "write_file", "return_w_matrix_variables", "generate_rolling_average_w_matrix", "convertBT2rad"], structure="one band, with and without reference sensor"))
    for a, b in (("18", "15"), ("18", "ma"), ("19", "mb"), ("16", "19"), ("mb", "17"), ("15", "16")):
        out.append(Harness("microwave %s and %s" % (a, b), microwave(tree, a, b), ["MW_add_W_matrices.run", "MW_add_W_matrices.read_matchup_data", "MW_add_W_matrices.return_w_matrix_variables_MW"],
                           uses=["append_W_to_input_file", "return_w_matrix_variables", "generate_rolling_average_w_matrix"], structure="one pair of instruments"))
    pm = [[3, 1, 2], [3, 3, 1, 2], [1, 2], [2], [1, 3], [3]]
    for ty in pm:
        for pairs in ([("0", "1")], [("0", "1"), ("1", "2"), ("2", "3")], [("2", "1"), ("0", "2")], [("1", "2")]):
            out.append(Harness("simulated: types %s, series %s" % (ty, " ".join("-".join(p) for p in pairs)), simulated(tree, ty, pairs), ["pmh2fiduceo." + f for f in ("run_conversion", "open_data_vals", "open_data_pams", "open_data_uncs")], uses=["write_input_file", "append_W_to_input_file", "return_w_matrix_variables", "generate_rolling_average_w_matrix"],
                               structure="variables of forms %s, %d series" % (ty, len(pairs))))
    for unlike in "uk":
        for ty in ([3, 3, 1, 2], [3, 1, 3]):
            out.append(Harness("simulated: types %s, unlike windows (%s)" % (ty, {"u": "uncertainty", "k": "size"}[unlike]), simulated(tree, ty, [("0", "1"), ("1", "2")], unlike), ["pmh2fiduceo.run_conversion"], uses=["write_input_file", "append_W_to_input_file", "return_w_matrix_variables", "generate_rolling_average_w_matrix"], structure="variables of forms %s, 2 series" % ty))
    return out


# -- AVHRR ---------------------------------------------------------------------------------------------------------------
def tool(tree, name):
    P = N.program(tree)
    M.complete(P)
    mod = P.load_path("tools/%s.py" % name)
    return P, mod


def avhrr(tree, band, ref, lim):
    P, mod = tool(tree, "AVHRR_to_updated_spec")
    own_name = mod.get_new_name
    ids = (-12, 19) if ref else (15, -1)
    names = ("aatsr", "n19") if ref else ("n15", "m02")

    def h(c):
        P.fs.__init__()
        n, k = T.sym("n", "I"), T.sym("k", "I")
        c.assume(T.le(T.const(1), n), T.le(T.const(1), k))
        c.positions = Positions()
        d = P.fs.files["in/f.nc"] = N.Dataset(P.fs, "in/f.nc")
        for nm, z in (("M", n), ("ten", 10), ("k", k), ("L", 1), ("three", 3)): d.createDimension(nm, z)
        v = {}

        def put(nm, dims, a, dtype="f8"):
            d.createVariable(nm, dtype, dims)[:] = a
            v[nm] = a
        empty = lambda nm: SArr.of((n, 10), lambda i, j: T.ite(T.and_(T.le(T.const(1), lift(j)), T.lt(lift(j), T.const(5))), T.NAN, T.app(nm, [lift(i), lift(j)])) if ref else T.app(nm, [lift(i), lift(j)]))
        for nm in ("H", "Ur", "Us"): put(nm, ("M", "ten"), empty(nm))
        if not ref: c.assume(T.not_(T.app("isnan", [T.app("H", [T.const(0), T.const(3)])], "B")))
        for nm in ("K", "Kr", "Ks"): put(nm, ("M",), N.sym_array(nm, (n,)))
        put("lm", ("L", "three"), SArr.of((1, 3), lambda i, j: T.ite(T.eq(lift(j), T.const(0)), T.const(ids[0]), T.ite(T.eq(lift(j), T.const(1)), T.const(ids[1]), n))), "i4")
        put("ref_time_matchup", ("M",), N.sym_array("time1", (n,))); put("time_matchup", ("M",), N.sym_array("time2", (n,)))
        for nm in SPACE + TARGET: put(nm, ("M", "k"), N.sym_array(nm, (n, k)))
        for nm in ("ref_BT%d" % band, "BT%d" % band): put(nm, ("M",), N.sym_array(nm, (n,)))
        for nm, _ in RENAMED: put(nm, ("M",), N.sym_array(nm, (n,)))
        d.close()
        gen, packer, written, masks = Generator(), Packer(), [], []
        mod.generate_rolling_average_w_matrix, mod.return_w_matrix_variables = gen, packer
        mod.convertBT2rad = lambda name, BT: SArr.of(BT.shape, lambda i: T.app("radiance", [lift(i)]))
        mod.test_input_file = lambda path: None
        mod.makedirs = P.fs.makedirs
        limit = T.sym("limit") if lim else None

        def averages(u11, u12, u21, u22, bt=None, temp_lim=None, label=None):
            masks.append(1)
            for a, nm in zip((u11, u12, u21, u22), ("ref_cal_Sp_Ur", "ref_cal_BB_Ur", "cal_Sp_Ur", "cal_BB_Ur")): alike(c, "accepted match-ups decided by %s" % nm, a, v[nm])
            if lim:
                c.oblige("the temperature limit is passed on", lift(temp_lim is not None) if temp_lim is None else T.eq(lift(temp_lim), limit))
                if bt is None: c.oblige("the brightness temperature is passed on", T.FALSE)
                else: alike(c, "temperature compared with the limit", bt, v["BT%d" % band])
            else: c.oblige("no temperature limit", lift(temp_lim is None or bt is None))
            return SArr.of((n,), lambda i: T.app("accept", [lift(i)], "B"))
        mod.return_valid_averages_mask = averages

        def write_file(output_file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks, time_sensor_1, time_sensor_2, sensor_1_name, sensor_2_name, additional_variables,
                       w_matrix_val=None, w_matrix_row=None, w_matrix_col=None, w_matrix_nnz=None, uncertainty_vector_row_count=None, uncertainty_vector=None,
                       w_matrix_use1=None, w_matrix_use2=None, uncertainty_vector_use1=None, uncertainty_vector_use2=None):
            written.append(dict((a, copied(x)) for a, x in locals().items() if a != "additional_variables" and a not in ("written",)))
            written[-1]["additional_variables"] = dict((nm, dict(e, data=copied(e["data"]))) for nm, e in additional_variables.items())
            return 0
        mod.write_file = write_file
        mod.get_new_name = lambda z: own_name(T.lift(z).args[0] if T.is_const(z) else z)       # (the masked scalars of netCDF4: recorded finding, see the run-time step)
        if lim:
            try: mod.main("in/f.nc", "out", limit)
            except KeyError as e:
                if e.args != ("BT11",): raise
                c.obligations.append(ctx.Obligation("%s:the temperature limit is applied to BT11, renamed before" % c.name, "known", "ring", {"counterexample": "KeyError: 'BT11' for every input; see known_findings.json"}, 0, None))
                return
        else: ctx.call(mod.main, "in/f.nc", "out")
        if len(masks) != 1: raise T.Unsupported("accepted match-ups decided in another way")
        was = [nm for nm in d.variables if lift(d.variables[nm].arr.at(*[T.const(0)] * d.variables[nm].arr.ndim)) is not lift(v[nm].at(*[T.const(0)] * v[nm].ndim))]
        c.oblige("input file unchanged", lift(was == [] and P.fs.files["in/f.nc"]._state == "closed"))
        pos = c.positions(SArr.of((n,), lambda i: T.app("accept", [lift(i)], "B")))
        m = pos.shape[0]
        at = lambda r: lift(pos.at(r))
        code = ("105", "106") if band == 37 else ("101", "102")
        if band == 37 and written and all("/AVHRR_REAL_10%d_" % z in w["output_file_path"] for w, z in zip(written, (1, 2) * 3)):
            c.obligations.append(ctx.Obligation("%s:3.7 um files are in the directories of the other bands" % c.name, "known", "ring", {"counterexample": "band == \"37\" is false for the integer 37; see known_findings.json"}, 0, None))
            code = ("101", "102")
        files = {}
        for q, mode in enumerate(("RSW_", "R_W_", "R___")):
            for z in (0, 1): files["out/AVHRR_REAL_%s_%s/f.nc" % (code[z], mode)] = (mode, 4 + z)
        c.oblige("one file per variant, in its directory", lift(sorted(w["output_file_path"] for w in written) == sorted(files)))
        c.oblige("directories of the variants exist", lift(all(f.rsplit("/", 1)[0] in P.fs.dirs for f in files)))
        zero = (lambda s, q: False, lambda s, q: False)
        for w in written:
            if w["output_file_path"] not in files: continue
            mode, npar = files[w["output_file_path"]]
            nm0 = "%s %d" % (mode, npar)
            c.oblige(nm0 + ": sensor names", lift((w["sensor_1_name"], w["sensor_2_name"]) == names))
            for a, b in (("K", "K"), ("Kr", "Kr"), ("Ks", "Ks"), ("time_sensor_1", "ref_time_matchup"), ("time_sensor_2", "time_matchup")):
                alike(c, "%s: %s" % (nm0, a), w[a], SArr.of((m,), lambda r, b=b: v[b].at(at(r))))
            want = []
            for s in (1, 2):
                cols, o = (1 if ref and s == 1 else npar), 5 * (s - 1)
                row = lambda nm, drop=(), keep=True: SArr.of((m, cols), lambda r, q: T.ite(T.or_(*[T.eq(lift(q), T.const(x)) for x in drop]), T.real(0), v[nm].at(at(r), lift(q) + o)) if keep else T.real(0))
                alike(c, "%s: X%d" % (nm0, s), w["X%d" % s], row("H"))
                alike(c, "%s: Us%d" % (nm0, s), w["Us%d" % s], row("Us", (0,) if ref and s == 1 else (), mode == "RSW_"))
                ty = [1] if cols == 1 else {"RSW_": [3, 3, 1, 2, 2], "R_W_": [3, 3, 1, 1, 1], "R___": [1] * 5}[mode][:cols]
                c.oblige("%s: forms of sensor %d" % (nm0, s), lift(labels(w["uncertainty_type%d" % s]) == ty))
                averaged = [] if cols == 1 else [0, 1]
                times = SArr.of((m,), lambda r, s=s: v[("ref_time_matchup", "time_matchup")[s - 1]].at(at(r)))
                own = [SArr.of((m, k), lambda r, z, nm=nm: v[nm].at(at(r), z)) for nm in (SPACE[s - 1], TARGET[s - 1])]
                want.append([(times, T.real(1) / 2, own[q], None) if q in averaged else None for q in range(cols)])
                if mode == "R___" and averaged:
                    combined(c, "%s: Ur%d" % (nm0, s), gen, w["Ur%d" % s], row("Ur"), times, own)
                else: alike(c, "%s: Ur%d" % (nm0, s), w["Ur%d" % s], row("Ur", averaged))
            extra = {"original_indices": SArr.of((m,), lambda r: at(r)), "nominal_measurand1": SArr.of((m,), lambda r: v["ref_BT%d" % band].at(at(r))), "nominal_measurand2": SArr.of((m,), lambda r: v["BT%d" % band].at(at(r)))}
            for a, b in RENAMED: extra[b] = SArr.of((m,), lambda r, a=a: v[a].at(at(r)))
            if npar == 4:
                if not ref: extra["To1"] = SArr.of((m,), lambda r: v["H"].at(at(r), T.const(4)))
                extra["To2"] = SArr.of((m,), lambda r: v["H"].at(at(r), T.const(9)))
            got = w["additional_variables"]
            c.oblige(nm0 + ": additional variables of the format and no others", lift(set(got) == set(extra)))
            for nm in sorted(set(got) & set(extra)):
                alike(c, "%s: %s" % (nm0, nm), got[nm]["data"], extra[nm])
                c.oblige("%s: %s: one value per match-up" % (nm0, nm), lift(tuple(got[nm]["dim"]) == ("M",)))
            keys = ("w_matrix_val", "w_matrix_row", "w_matrix_col", "w_matrix_nnz", "uncertainty_vector_row_count", "uncertainty_vector")
            uses = ("w_matrix_use1", "w_matrix_use2", "uncertainty_vector_use1", "uncertainty_vector_use2")
            if mode == "R___": c.oblige(nm0 + ": no matrices", lift(w["w_matrix_use1"] is None))
            elif w["w_matrix_use1"] is None: c.oblige(nm0 + ": matrices written", T.FALSE)
            else: matrices(c, nm0, gen, packer, [w[x] for x in keys], [w[x] for x in uses], want)
    return h


def labels(x):
    from pyvc.npmodel import asarray
    x = asarray(x)
    if x.ndim != 1: return None
    return [int(lift(x.at(q)).args[0]) if lift(x.at(q)).op == "const" else None for q in range(int(x.shape[0]))]


def combined(c, name, gen, got, base, times, own):
    """Columns of averaged variables: window mean of the own uncertainties; the others as given."""
    c.oblige(name + ": shape", T.and_(lift(got.ndim == 2), *[T.eq(lift(a), lift(b)) for a, b in zip(got.shape, base.shape)]))
    r, h = M.generic(c, "r", lift(base.shape[0]))
    for q in range(base.shape[1]):
        if q > 1:
            c.oblige("%s: variable %d" % (name, q), T.eq(lift(got.at(r, q)), lift(base.at(r, q))), h)
            continue
        pr = ctx.current()
        cands = [x for x in gen.vectors if isinstance(x.u, SArr) and pr.prover.prove(pr.pc, T.and_(holds(c, x.u, own[q]), holds(c, x.W.times, times)))[0] == "valid"]
        c.oblige("%s: variable %d is averaged from its own uncertainties" % (name, q), lift(len(cands) > 0))
        if not cands: continue
        goals = []
        for x in cands:
            z = T.fresh("z", "I")
            goals.append(T.eq(lift(got.at(r, q)), T.sum_(z, 0, x.W.columns, T.app("W%d" % x.W.number, [r, z]) * x.array.at(z))))
        c.oblige("%s: variable %d" % (name, q), T.or_(*goals), h)


# -- microwave -----------------------------------------------------------------------------------------------------------
KIND = {"15": "AMSUB", "16": "AMSUB", "17": "AMSUB", "19": "MHS", "ma": "MHS", "mb": "MHS", "18": "ref"}
SIZE, AVERAGED = {"ref": 1, "AMSUB": 11, "MHS": 9}, {"ref": 0, "AMSUB": 9, "MHS": 7}
TYPES = {"ref": [1], "AMSUB": [3, 3] + [4] * 7 + [1, 2], "MHS": [3, 3] + [4] * 5 + [1, 2]}


def microwave(tree, a, b):
    P, mod = tool(tree, "MW_add_W_matrices")

    def h(c):
        P.fs.__init__()
        kinds = [KIND[a], KIND[b]]
        ms = [SIZE[x] for x in kinds]
        f = N.make_file(c, P.fs, "in.nc", 0, [a, b], ms, [[1] * m for m in ms], opt=("across_track_index1",), add=("latitude",))
        gen, packer, appended, tested = Generator(), Packer(), [], []
        mod.generate_rolling_average_w_matrix, mod.return_w_matrix_variables = gen, packer
        mod.copyfile = P.fs.copyfile
        mod.append_W_to_input_file = lambda *args: appended.append(args)
        mod.test_input_file = lambda path: None
        ctx.call(mod.run, "in.nc", "out.nc")
        c.oblige("one output file, and the input", lift(sorted(P.fs.files) == ["in.nc", "out.nc"]))
        if "out.nc" not in P.fs.files: return
        u = [[T.app("Ur%d_0" % s, [T.const(0), T.const(q)]) for q in range(3)] for s in (1, 2)]
        n = f.M
        for path in ("in.nc", "out.nc"):
            d = P.fs.files[path]
            c.oblige(path + ": closed", lift(d._state == "closed"))
            d.__dict__["_state"] = "r"
            c.oblige(path + ": sensor names", lift((d._attrs.get("sensor_1_name"), d._attrs.get("sensor_2_name")) == (a, b)))
            c.oblige(path + ": variables", lift(set(d.variables) == set(f.v)))
            for nm, x in sorted(f.v.items()):
                if nm not in d.variables: continue
                want = x
                if path == "out.nc" and nm[:-1] == "uncertainty_type": want = N.M_const(TYPES[kinds[int(nm[-1]) - 1]])
                if path == "out.nc" and nm[:-1] == "Ur": want = SArr.of(x.shape, lambda i, q, x=x, z=AVERAGED[kinds[int(nm[-1]) - 1]]: T.ite(T.lt(lift(q), T.const(z)), T.real(0), x.at(i, q)))
                alike(c, "%s: %s" % (path, nm), d.variables[nm].arr, want)
        if len(appended) != 1: raise T.Unsupported("matrices written in another way")
        g = appended[0]
        c.oblige("matrices added to the output file", lift(g[0] == "out.nc"))
        w = N.M_const([lift(x) for x in (0.0625, 0.125, 0.1875, 0.25, 0.1875, 0.125, 0.0625)])
        want = [[(N.sym_array("time%d_0" % s, (n,)), lift(8.0 / 3.0), u[s - 1][min(q, 2)], w) if q < AVERAGED[kinds[s - 1]] else None for q in range(ms[s - 1])] for s in (1, 2)]
        matrices(c, "matrices", gen, packer, list(g[1:7]), list(g[7:11]), want)
    return h


# -- simulated text files ------------------------------------------------------------------------------------------------
class Number(str):
    """Text of a number."""

    def __new__(cls, term):
        self = str.__new__(cls, "0.125")
        self.term = lift(term)
        return self

    def __pyvc_number__(self): return self.term

    def rstrip(self, *a): return self

    lstrip = strip = rstrip

    def refuse(self, *a, **k): raise T.Unsupported("text of a number taken apart")
    split = __getitem__ = __len__ = __iter__ = replace = __add__ = __eq__ = __ne__ = __lt__ = __gt__ = startswith = endswith = isdigit = find = index = refuse
    __hash__ = str.__hash__

    def __contains__(self, x):
        if all(z in "0123456789.e+- \n" for z in x): self.refuse()
        return False


class Row(Number):
    """A line of numbers."""

    def __new__(cls, terms):
        self = str.__new__(cls, " ".join(["0.125"] * len(terms)) + "\n")
        self.terms = [Number(t) for t in terms]
        return self

    def __pyvc_number__(self):
        if len(self.terms) != 1: raise ValueError("could not convert string to float")
        return self.terms[0].term

    def split(self, sep=None, n=-1):
        if n != -1 or sep not in (None, " "): self.refuse()
        return list(self.terms)


class Text(object):
    """A text file open for reading."""

    def __init__(self, texts, path, mode):
        if mode not in ("r", "rt") or path not in texts: raise T.Unsupported("open(%r, %r)" % (path, mode))
        self.lines = iter([x + "\n" if isinstance(x, str) else Row(x) for x in texts[path]])

    def __enter__(self): return self

    def __exit__(self, *a): return False

    def close(self): pass

    def __iter__(self): return self

    def __next__(self): return next(self.lines)

    def readline(self): return next(self.lines, "")

    def readlines(self): return list(self.lines)


def simulated(tree, ty, pairs, unlike=None):
    P, mod = tool(tree, "pmh2fiduceo")

    def h(c):
        P.fs.__init__()
        nx = len(ty)
        Nm = [T.sym("N%d" % q, "I") for q in range(len(pairs))]
        for x in Nm: c.assume(T.le(T.const(1), x))
        off = [T.const(0)]
        for x in Nm: off.append(off[-1] + x)
        H = N.sym_array("H", (off[-1], 2 * nx + 1))
        k = T.sym("window", "I")
        c.assume(T.le(T.const(1), k))
        u = [T.sym("u%d" % q) if t != 3 else T.sym("u") for q, t in enumerate(ty)]
        us = [T.sym("s%d" % q) if t == 2 else T.real(0) for q, t in enumerate(ty)]
        uref, ukr = T.sym("uref"), T.sym("ukr")
        written, appended, saved = [], [], []
        gen, packer = Generator(), Packer()
        true = [[T.app("atrue", [T.const(a), T.const(b)]) for b in range(3)] for a in range(4)]
        texts = {"in/data_pams.txt": ["Im"] + [" ".join(p) for p in pairs] + ["Nm"] + [[x] for x in Nm] + ["atrue"] + true, "in/data_uncs.txt": ["reference R:", [uref]]}
        for q, t in enumerate(ty): texts["in/data_uncs.txt"] += ["X %d %s:" % (q + 1, {1: "R", 2: "RS", 3: "MA"}[t]), {1: [u[q]], 2: [u[q], us[q]], 3: [u[q], k]}[t]]
        if unlike:
            at = 2 * max(q for q, t in enumerate(ty) if t == 3) + 3
            other = [T.sym("unlike"), k] if unlike == "u" else [T.sym("u"), T.sym("unlike", "I")]
            c.assume(T.le(T.const(1), lift(other[1])), T.not_(T.and_(T.eq(other[0], T.sym("u")), T.eq(lift(other[1]), k))))
            texts["in/data_uncs.txt"][at] = other
        texts["in/data_uncs.txt"] += ["Kr:", [ukr]]
        mod.open = lambda path, mode="r": Text(texts, path, mode)

        def loadtxt(path, ndmin=0, **other):
            if path != "in/data_vals.txt" or other: raise T.Unsupported("loadtxt(%r)" % path)
            if ndmin != 2: c.oblige("a single row is read as a row", T.FALSE)
            return SArr.of(H.shape, H.frozen())
        mod.loadtxt = loadtxt
        mod.generate_rolling_average_w_matrix, mod.return_w_matrix_variables = gen, packer

        def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks, time1, time2, sensor_1_name, sensor_2_name, additional_variables=None):
            written.append(dict((x, copied(y)) for x, y in locals().items() if x != "written"))
        mod.write_input_file = write_input_file
        mod.append_W_to_input_file = lambda *args: appended.append(args)
        mod.savetxt = lambda path, x: saved.append((path, x))
        if unlike:
            try: mod.run_conversion("in", "out")
            except ValueError:
                c.oblige("unlike windows refused", T.TRUE)
                return
            c.oblige("unlike windows refused", T.FALSE)
            return
        ctx.call(mod.run_conversion, "in", "out")
        paths = ["out/%s_%s.nc" % p for p in pairs]
        c.oblige("one file per series", lift([w["file_path"] for w in written] == paths))
        has = 3 in ty
        c.oblige("matrices in every file that needs them", lift([g[0] for g in appended] == (paths if has else [])))
        c.oblige("true parameters saved", lift([s[0] for s in saved] == ["out/atrue.txt"]))
        for s in saved[:1]: alike(c, "true parameters", s[1], N.sym_array("atrue", (4, 3)))
        for q, (p, n) in enumerate(zip(pairs, Nm)):
            ws = [w for w in written if w["file_path"] == paths[q]]
            if len(ws) != 1: continue
            w, o = ws[0], off[q]
            nm0 = "series %d" % (q + 1)
            c.oblige(nm0 + ": sensor names", lift((w["sensor_1_name"], w["sensor_2_name"]) == p))
            col = lambda z: SArr.of((n,), lambda i: H.at(o + lift(i), z))
            alike(c, nm0 + ": K", w["K"], col(T.const(2 * nx)))
            alike(c, nm0 + ": Kr", w["Kr"], SArr.of((n,), lambda i: ukr))
            alike(c, nm0 + ": Ks", w["Ks"], SArr.of((n,), lambda i: T.real(0)))
            i, hy = M.generic(c, "i", n)
            for t in ("time1", "time2"):
                c.oblige("%s: %s: one per match-up" % (nm0, t), T.eq(lift(w[t].shape[0]), n))
                c.oblige("%s: %s: one scan line apart" % (nm0, t), T.eq(lift(w[t].at(i)) - lift(w[t].at(T.const(0))), i), hy)
            pick = lambda xs, z: chosen(xs, z)
            for s in (1, 2):
                if s == 1 and p[0] == "0":
                    alike(c, nm0 + ": X1", w["X1"], SArr.of((n, 1), lambda i, z: H.at(o + lift(i), T.const(0))))
                    alike(c, nm0 + ": Ur1", w["Ur1"], SArr.of((n, 1), lambda i, z: uref))
                    alike(c, nm0 + ": Us1", w["Us1"], SArr.of((n, 1), lambda i, z: T.real(0)))
                    c.oblige(nm0 + ": forms of the reference", lift(labels(w["uncertainty_type1"]) == [1]))
                    continue
                alike(c, "%s: X%d" % (nm0, s), w["X%d" % s], SArr.of((n, nx), lambda i, z, s=s: H.at(o + lift(i), lift(z) + nx * (s - 1))))
                alike(c, "%s: Ur%d" % (nm0, s), w["Ur%d" % s], SArr.of((n, nx), lambda i, z: pick([x if t != 3 else T.real(0) for x, t in zip(u, ty)], z)))
                alike(c, "%s: Us%d" % (nm0, s), w["Us%d" % s], SArr.of((n, nx), lambda i, z: pick(us, z)))
                c.oblige("%s: forms of sensor %d" % (nm0, s), lift(labels(w["uncertainty_type%d" % s]) == ty))
            gs = [g for g in appended if g[0] == paths[q]]
            if len(gs) == 1 and has:
                want = [[(w["time%d" % s], T.real(1), u[z], k) if t == 3 else None for z, t in enumerate([1] if s == 1 and p[0] == "0" else ty)] for s in (1, 2)]
                matrices(c, nm0, gen, packer, list(gs[0][1:7]), list(gs[0][7:11]), want)
    return h


def chosen(xs, z):
    out = lift(xs[-1])
    for q in range(len(xs) - 2, -1, -1): out = T.ite(T.eq(lift(z), T.const(q)), lift(xs[q]), out)
    return out
