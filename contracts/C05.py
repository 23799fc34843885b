"""A written match-up file holds exactly the data given, under the right names, and reopens as the same data.

Pre: match-up arrays of one file, any number of match-ups and of variables (symbolic M, m1, m2), any contents; any
weighting-matrix variables of consistent lengths; additional variables of the lengths of their dimensions (structure: a
fixed dictionary of five of them, of different kinds).  Reopening fixes the numbers of variables and their forms.
"""
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N, C02, C03

TRUSTED = N.TRUSTED
FLOAT, INT = ("f4", "f8"), ("i4", "i8", "i2", "i1", "int", "int32")
WDIMS = {"w_matrix_nnz": ("w_matrix_count",), "w_matrix_row": ("w_matrix_count", "w_matrix_row_count"), "w_matrix_col": ("w_matrix_nnz_sum",),
         "w_matrix_val": ("w_matrix_nnz_sum",), "w_matrix_use1": ("m1",), "w_matrix_use2": ("m2",), "u_matrix_row_count": ("u_matrix_count",),
         "u_matrix_val": ("u_matrix_row_count_sum",), "u_matrix_use1": ("m1",), "u_matrix_use2": ("m2",)}
WORDER = ["w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_val", "u_matrix_use1", "u_matrix_use2"]
ADD = {"across_track_index1": ("i4", ("M",)), "along_track_index2": ("i4", ("M",)), "nominal_BT1": ("f4", ("M",)), "lat": ("f8", ("M",)), "per_column": ("f8", ("M", "m2"))}


class Given(object):
    """The data given to a writer."""

    def __init__(self, c, m=None, forms=None, with_w=False, add=(), use=None):
        self.M = T.sym("M", "I")
        c.assume(T.le(T.const(1), self.M))
        self.m = m or [T.sym("m1", "I"), T.sym("m2", "I")]
        for x in self.m: c.assume(T.le(T.const(1), lift(x)))
        self.names = ["alpha", "beta"]
        v = self.v = {}
        for s in (1, 2):
            for nm in ("X", "Ur", "Us"): v[nm + str(s)] = (("M", "m%d" % s), N.sym_array(nm + str(s), (self.M, self.m[s - 1])))
            v["uncertainty_type%d" % s] = (("m%d" % s,), N.M_const(forms[s - 1]) if forms else N.sym_array("ty%d" % s, (self.m[s - 1],), "I"))
            v["time%d" % s] = (("M",), N.sym_array("time%d" % s, (self.M,)))
        for nm in ("K", "Kr", "Ks"): v[nm] = (("M",), N.sym_array(nm, (self.M,)))
        self.kind = {k: INT if k.startswith("uncertainty_type") else ("f8",) if k.startswith("time") else FLOAT for k in v}
        self.dims = {"M": self.M, "m1": self.m[0], "m2": self.m[1]}
        self.w = with_w
        if with_w:
            self.nw, self.nu, self.R = T.sym("nw", "I") if use is None else use[2], T.sym("nu", "I") if use is None else use[3], self.M + 1
            for nm in ("w_matrix_nnz", "u_matrix_row_count"): c.fact(nm, lambda a, t: T.le(T.const(1), t))
            for x in (self.nw, self.nu): c.assume(T.le(T.const(1), lift(x)))
            k = T.fresh("k", "I")
            self.nnz, self.nuu = T.sum_(k, 0, self.nw, T.app("w_matrix_nnz", [k], "I")), T.sum_(k, 0, self.nu, T.app("u_matrix_row_count", [k], "I"))
            self.wdims = {"w_matrix_count": self.nw, "w_matrix_row_count": self.R, "w_matrix_nnz_sum": self.nnz, "u_matrix_count": self.nu, "u_matrix_row_count_sum": self.nuu}
            size = dict(self.dims, **self.wdims)
            for nm, d in WDIMS.items():
                v[nm] = (d, N.sym_array(nm, tuple(size[x] for x in d), "R" if nm.endswith("val") else "I"))
                self.kind[nm] = FLOAT if nm.endswith("val") else INT
            self.dims = size
        self.add = {}
        for nm in add:
            t, d = ADD[nm]
            v[nm] = (d, N.sym_array(nm, tuple(self.dims[x] for x in d), "I" if t in INT else "R"))
            self.kind[nm] = INT if t in INT else FLOAT
            self.add[nm] = {"data": v[nm][1], "dtype": t, "dim": d, "Description": "about " + nm}

    def arrays(self): return [self.v[k][1] for k in sorted(self.v)]

    def args(self, path):
        g = lambda k: self.v[k][1]
        return [path] + [g(k) for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "uncertainty_type1", "uncertainty_type2", "K", "Kr", "Ks", "time1", "time2")] + self.names

    def append_args(self, path):
        order = ["w_matrix_val", "w_matrix_row", "w_matrix_col", "w_matrix_nnz", "u_matrix_row_count", "u_matrix_val", "w_matrix_use1", "w_matrix_use2", "u_matrix_use1", "u_matrix_use2"]
        return [path] + [self.v[k][1] for k in order]


def writers(P):
    """name -> (functions, write(given, path, w, add))"""
    out = []

    def tool(name):
        m = P.load_path("tools/%s.py" % name)

        def write(g, path, add):
            a = g.args(path)
            if add is None: ctx.call(m.write_input_file, *a)
            else: ctx.call(m.write_input_file, *a, additional_variables=add)
            if g.w: ctx.call(m.append_W_to_input_file, *g.append_args(path))
        return [name + ".write_input_file", name + ".append_W_to_input_file"], write

    def avhrr(name):
        m = P.load_path("tools/AVHRR_to_updated_spec.py")
        m.__dict__["test_input_file"] = lambda path: None           # (the checker reads the file: property C22)

        def write(g, path, add):
            a = g.args(path) + [add or {}]
            if g.w: a += g.append_args(path)[1:]
            ctx.call(m.write_file, *a)
        return ["AVHRR_to_updated_spec.write_file", "AVHRR_to_updated_spec.write_input_file", "AVHRR_to_updated_spec.append_W_to_input_file"], write

    def cls(name):
        W = P.load(N.IO + "MatchUpWriter").MatchUpWriter

        def write(g, path, add):
            k = {}
            if add is not None: k["additional_variables"] = add
            if g.w: k["w_matrix_variables"] = tuple(g.v[x][1] for x in WORDER)
            ctx.call(W().write_input_file, *g.args(path), **k)
        return ["MatchUpWriter.write_input_file"], write
    for nm, f in (("W_matrix_functions", tool), ("pmh2fiduceo", tool), ("AVHRR_to_updated_spec", avhrr), ("MatchUpWriter", cls)):
        try: out.append((nm,) + f(nm))
        except Exception as e: out.append((nm, [nm], failing(e)))
    return out


def failing(e):
    def write(*a): raise T.Unsupported("module does not load: %s" % e)
    return write


CASES = [("plain", False, None), ("no additional dictionary entries", False, []), ("weighting matrices", True, None), ("additional variables", False, list(ADD)),
         ("weighting matrices and additional variables", True, list(ADD)[:3])]
TRIPS = [("forms 1 and 2", [1, 3], [[1], [1, 2, 1]], None, ["lat"]), ("forms 1 to 4", [2, 3], [[4, 1], [3, 2, 4]], ([[1, 0], [2, 0, 1]], [[1, 0], [2, 0, 1]], 2, 2), ["across_track_index1", "nominal_BT1"])]


def harnesses(tree, tier):
    P = N.program(tree)
    R = P.load(N.IO + "MatchUpReader")
    out = []
    for nm, fns, write in writers(P):
        for case, w, add in CASES:
            out.append(Harness("%s: %s" % (nm, case), stored(P, write, w, add), fns, structure="" if add is None else "additional variables: %s" % ", ".join(add)))
        for case, m, forms, use, add in TRIPS:
            out.append(Harness("%s reopened: %s" % (nm, case), reopened(P, R, write, m, forms, use, add), fns + ["MatchUpReader.openMatchUp"],
                               structure="one file, variables and forms: %s" % case))
    return out


def stored(P, write, with_w, add):
    def h(c):
        P.fs.__init__()
        g = Given(c, with_w=with_w, add=add or ())
        was = [SArr.of(a.shape, a.frozen()) for a in g.arrays()]
        write(g, "f", None if add is None else g.add)
        f = compare(c, P, g)
        c.oblige("arrays given to the writer unmodified", M.same(g.arrays(), was))
        for nm in g.add:
            c.oblige("dictionary entry of %s kept" % nm, lift(sorted(g.add[nm]) == ["Description", "data", "dim", "dtype"]))
    return h


def compare(c, P, g):
    c.oblige("exactly the file named is written, and closed", lift(list(P.fs.files) == ["f"] and P.fs.files["f"]._state == "closed"))
    d = P.fs.files.get("f")
    if d is None: return None
    d.__dict__["_state"] = "r"
    c.oblige("sensor names", lift([d._attrs.get("sensor_1_name"), d._attrs.get("sensor_2_name")] == g.names))
    c.oblige("dimensions of the format and no others", lift(set(d.dimensions) == set(g.dims)))
    for k, n in g.dims.items():
        c.oblige("dimension " + k, T.eq(lift(d.dimensions[k].size), lift(n)) if k in d.dimensions else T.FALSE)
    c.oblige("variables of the format and no others", lift(set(d.variables) == set(g.v)))
    for k, (dims, a) in sorted(g.v.items()):
        x = d.variables.get(k)
        ok = x is not None and x.dimensions == tuple(dims)
        c.oblige("variable %s: its dimensions" % k, lift(ok))
        if not ok: continue
        c.oblige("variable %s: type that can hold the data" % k, lift(x.dtype in g.kind[k]))
        idx = [M.generic(c, "i", lift(n)) for n in a.shape]
        hy = [q for _, hh in idx for q in hh]
        c.oblige("variable %s: element for element" % k, T.eq(x.arr.at(*[i for i, _ in idx]), a.at(*[i for i, _ in idx])), hy)
    return d


def reopened(P, R, write, m, forms, use, add):
    def h(c):
        P.fs.__init__()
        g = Given(c, m=m, forms=forms, with_w=use is not None, add=add, use=use)
        f = N.File()
        f.q, f.names, f.m, f.types, f.M = 0, g.names, m, forms, g.M
        f.opt, f.add = [a for a in add if "track" in a], [a for a in add if "track" not in a]
        f.use = None
        if use is not None:
            nw, nu = use[2], use[3]
            f.use = use[:2]
            f.nnz = [T.app("w_matrix_nnz", [T.const(k)], "I") for k in range(nw)]
            f.cnt = [T.app("u_matrix_row_count", [T.const(k)], "I") for k in range(nu)]
            f.woff, f.uoff = [T.const(0)], [T.const(0)]
            for x in f.nnz: f.woff.append(f.woff[-1] + x)
            for x in f.cnt: f.uoff.append(f.uoff[-1] + x)
            f.R = g.M + 1
            for s in (1, 2):
                g.v["w_matrix_use%d" % s] = (("m%d" % s,), N.M_const(use[0][s - 1]))
                g.v["u_matrix_use%d" % s] = (("m%d" % s,), N.M_const(use[1][s - 1]))
        f.v = {k: a for k, (_, a) in g.v.items()}
        write(g, "f", g.add)
        mu = ctx.call(R.MatchUpReader().openMatchUp, ["f"])
        L = N.Layout([f])
        for k in ("Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov"):
            c.oblige("index " + k, lift(plain(mu.idx[k]) == plain(getattr(L, "ms" if k == "sensor_ms" else k))))
        for k, want in (("Nm", L.Nm), ("cNm", L.cNm), ("idx", L.idx), ("N_var", L.N_var)):
            c.oblige("index " + k, T.and_(lift(len(mu.idx[k]) == len(want)), *[T.eq(lift(x), lift(y)) for x, y in zip(mu.idx[k], want)]))
        C02.check(c, mu, [f])
        C03.check(c, mu, [f])
    return h


def plain(x): return [plain(y) for y in x] if isinstance(x, (list, tuple)) else (int(x) if not isinstance(x, str) else x)
