import os, shutil, tempfile
import numpy as np
import scipy.sparse as sp
from runtime import gen, boot, C02, C03
RULE = "one case = random arrays written by one of the four writers (with and without weighting matrices and additional variables), every file variable compared, file reopened"


def cases(rng, tier):
    for z in range(110 if tier == "quick" else 1200):
        p = gen.payload(rng, forms=[(1, 2), (1, 2, 3, 4), (3, 1)][z % 3], max_series=1 if z % 4 else 3)
        p["writer"] = z // 3 % 4
        yield p


def write(d, path, writer, wv):
    """Write file d with the writer under test."""
    add = {}
    for nm, v in list(d["opt"].items()): add[nm] = {"data": v, "dtype": "i4", "dim": ("M",), "Description": nm}
    for nm, v in list(d["add"].items()): add[nm] = {"data": v, "dtype": "f8", "dim": ("M",), "Description": nm}
    args = [path, d["X1"], d["X2"], d["Ur1"], d["Ur2"], d["Us1"], d["Us2"], np.array(d["type1"]), np.array(d["type2"]), d["K"], d["Kr"], d["Ks"], d["time1"], d["time2"], d["name"][0], d["name"][1]]
    keep = [x.copy() if isinstance(x, np.ndarray) else x for x in args]
    import W_matrix_functions as WF
    if d["has_w"]: val, row, col, nnz, cnt, uval = WF.return_w_matrix_variables([sp.csr_matrix(w) for w in d["W"]], d["u"])
    if d["has_w"]:
        wv.update(zip(WVARS, [np.array(x) for x in (nnz, row, col, val, d["wuse"][0], d["wuse"][1], cnt, uval, d["uuse"][0], d["uuse"][1])]))
    use = [np.array(x) for x in (d["wuse"][0], d["wuse"][1], d["uuse"][0], d["uuse"][1])] if d["has_w"] else []
    app = [val, row, col, nnz, cnt, uval] + use if d["has_w"] else []
    if writer in (0, 2):
        if writer == 2: import pmh2fiduceo as WF
        WF.write_input_file(*args, additional_variables=add or None)
        if d["has_w"]: WF.append_W_to_input_file(path, *app)
    elif writer == 3:
        import AVHRR_to_updated_spec as A
        old, A.test_input_file = A.test_input_file, lambda path: None            # (the checker itself: C22)
        try: A.write_file(*(args + [add] + app))
        finally: A.test_input_file = old
    else:
        from harmonisation.core.matchup.matchupIO.MatchUpWriter import MatchUpWriter
        w = (nnz, row, col, val, use[0], use[1], cnt, uval, use[2], use[3]) if d["has_w"] else None
        MatchUpWriter().write_input_file(*args, w_matrix_variables=w, additional_variables=add or None)
    return all(gen.same(a, b) for a, b in zip(keep, args))


WVARS = ("w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_val", "u_matrix_use1", "u_matrix_use2")


def check(p):
    from netCDF4 import Dataset
    F = gen.Files(p)
    out = []
    d0 = tempfile.mkdtemp(dir=boot.TREE)
    try:
        paths = []
        for q, d in enumerate(F.f):
            path = os.path.join(d0, "f%d.nc" % q); paths.append(path)
            wv = {}
            if not write(d, path, p["writer"], wv): out.append(("C05:input modified", "the arrays given to the writer were modified"))
            g = Dataset(path)
            try:
                if (g.sensor_1_name, g.sensor_2_name) != tuple(d["name"]): out.append(("C05:sensor names", "%r" % ((g.sensor_1_name, g.sensor_2_name),)))
                dims = dict((k, v.size) for k, v in g.dimensions.items())
                for k, v in (("M", d["n"]), ("m1", d["m"][0]), ("m2", d["m"][1])):
                    if dims.get(k) != v: out.append(("C05:dimension " + k, "%r, expected %d" % (dims.get(k), v)))
                want = {"K": (("M",), d["K"]), "Kr": (("M",), d["Kr"]), "Ks": (("M",), d["Ks"])}
                for s in ("1", "2"):
                    for nm in ("X", "Ur", "Us"): want[nm + s] = (("M", "m" + s), d[nm + s])
                    want["uncertainty_type" + s] = (("m" + s,), d["type" + s])
                    want["time" + s] = (("M",), d["time" + s])
                for k, v in list(d["opt"].items()) + list(d["add"].items()): want[k] = (("M",), v)
                if d["has_w"]:
                    for k, v in wv.items():
                        w = {"w_matrix_row": ("w_matrix_count", "w_matrix_row_count")}.get(k) or (("w_matrix_count",) if k == "w_matrix_nnz" else ("u_matrix_count",) if k == "u_matrix_row_count" else ("m" + k[-1],) if k[-1] in "12" else ("w_matrix_nnz_sum",) if k[0] == "w" else ("u_matrix_row_count_sum",))
                        want[k] = (w, v)
                for k, (dim, v) in want.items():
                    if k not in g.variables: out.append(("C05:variable " + k, "missing")); continue
                    x = g.variables[k]
                    if x.dimensions != dim: out.append(("C05:variable " + k, "dimensions %r, expected %r" % (x.dimensions, dim)))
                    elif not np.allclose(np.asarray(np.ma.filled(x[:], np.nan) if x.dtype.kind == "f" else np.ma.filled(x[:], -99), dtype=float), np.asarray(v, dtype=float), rtol=1e-6, atol=0): out.append(("C05:variable " + k, "%r, given %r" % (x[:], v)))
                extra = set(g.variables) - set(want)
                if extra: out.append(("C05:extra variables", sorted(extra)))
            finally: g.close()
        if not out:
            from harmonisation.core.matchup.matchupIO.MatchUpReader import open_matchup
            from runtime import rd
            mu = open_matchup(paths)
            old = rd.opened
            rd.opened = lambda *a, **k: (mu, F, gen.Layout(p))
            try:
                for m in (C02, C03):
                    out += [("C05:reopened " + k.split(":")[1], v) for k, v in m.check(p)]
            finally: rd.opened = old
            want = gen.Layout(p).as_idx()
            for k in want:
                if not gen.same(list(mu.idx[k]), want[k]): out.append(("C05:reopened index", "%s %r, expected %r" % (k, mu.idx[k], want[k])))
    finally: shutil.rmtree(d0, ignore_errors=True)
    return out
