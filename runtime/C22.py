import os, shutil, tempfile, io, contextlib, importlib
import numpy as np
from runtime import gen, boot
RULE = "one case = a random valid file with or without weighting matrices, or such a file with exactly one defect of a given kind; the checker's verdict against the documented format"
REQ = ["X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2", "uncertainty_type1", "uncertainty_type2"]
WV = ["w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_val", "u_matrix_use1", "u_matrix_use2"]
GEN = ([("valid", None)] * 12 + [("missing", v) for v in REQ] + [("dim", v) for v in REQ] + [("dtype", v) for v in REQ] + [("attr", v) for v in ("sensor_1_name", "sensor_2_name", "same")]
       + [("neg", v) for v in ("Ur1", "Ur2", "Us1", "Us2", "Kr", "Ks")] + [("zeroK", None)] + [("form", s) for s in (1, 2)] + [("label", s) for s in (1, 2)])
WK = ([("valid", None)] * 6 + [("wextra", None), ("uextra", None)] * 2 + [("missing", v) for v in WV] + [("dim", v) for v in WV] + [("dtype", v) for v in WV]
      + [("wcount", None), ("ucount", None), ("rows", None), ("nnzsum", None), ("usum", None), ("gapw", None), ("gapu", None), ("wnou", None), ("unow", None), ("width", None)] + [("width2", None)] * 12 + [("uzero", None), ("uneg", None),
         ("negcol", None), ("negrow", None)])


def cases(rng, tier):
    for rep in range(1 if tier == "quick" else 15):
        for w in (False, True):
            for kind, v in GEN + (WK if w else []):
                while True:
                    p = gen.payload(rng, forms=(1, 2, 3, 4) if w else (1, 2), max_series=1, min_n=1 if rng.random() < 0.3 else 2)
                    has = any(f in (3, 4) for a in p["forms"][0] for f in a)
                    if has == w: break
                p["kind"], p["var"] = kind, v
                yield p


def spoil(path, d, kind, v, r):
    """One defect; returns False when it does not apply to this file."""
    from netCDF4 import Dataset
    src = Dataset(path); dims = dict((k, len(x)) for k, x in src.dimensions.items())
    at = dict((k, src.getncattr(k)) for k in src.ncattrs())
    V = dict((k, [x.dtype.str[1:], x.dimensions, np.array(x[:])]) for k, x in src.variables.items())
    src.close()
    if kind == "missing": del V[v]
    elif kind == "dim":
        t, dm, x = V[v]
        dims["other"] = 7
        if len(dm) == 1: V[v] = [t, ("other",), np.resize(x, 7)]
        elif r.rand() < 0.5: V[v] = [t, (dm[0], "other"), np.resize(x, (x.shape[0], 7))]
        else: V[v] = [t, ("other", dm[1]), np.resize(x, (7, x.shape[1]))]
    elif kind == "dtype":
        t, dm, x = V[v]
        V[v] = ["i8" if t[0] == "i" else "i4", dm, x.astype("i8")] if r.rand() < 0.5 or t[0] != "i" else ["f4", dm, x]
    elif kind == "attr":
        if v == "same": at["sensor_2_name"] = at["sensor_1_name"]
        else: del at[v]
    elif kind == "neg":
        x = V[v][2]; k = r.randint(x.size); x.reshape(-1)[k] = -abs(x.reshape(-1)[k]) - 0.5
    elif kind == "zeroK":
        k = r.randint(dims["M"]); V["Kr"][2][k] = 0; V["Ks"][2][k] = 0
    elif kind == "label":
        x = V["uncertainty_type%d" % v][2]; k = r.randint(len(x)); x[k] = r.choice([q for q in (0, 1, 2, 3, 4, 5, -1) if q != x[k]])
    elif kind == "form":
        f = d["type%d" % v]; k = r.randint(len(f)); u = V["Us%d" % v][2]
        if f[k] in (1, 3): u[:, k] = 0.4
        elif f[k] in (2, 4) : u[:, k] = 0
        if f[k] == 1 and r.rand() < 0.5: u[:, k] = 0; V["Ur%d" % v][2][r.randint(dims["M"]), k] = 0
    elif kind in ("wcount", "ucount"):
        q = kind[0]
        x = V["%s_matrix_use%d" % (q, 1 + r.randint(2))][2]
        full = np.concatenate([V["%s_matrix_use%d" % (q, s)][2] for s in (1, 2)])
        for s in (1, 2):
            y = V["%s_matrix_use%d" % (q, s)][2]; y[y == full.max()] += 1
    elif kind == "wextra":                    # a last matrix that no variable uses
        dims["w_matrix_count"] += 1
        V["w_matrix_nnz"][2] = np.append(V["w_matrix_nnz"][2], V["w_matrix_nnz"][2][0])
        V["w_matrix_row"][2] = np.concatenate([V["w_matrix_row"][2], V["w_matrix_row"][2][:1]])
        e = V["w_matrix_nnz"][2][0]; dims["w_matrix_nnz_sum"] += int(e)
        for q in ("w_matrix_col", "w_matrix_val"): V[q][2] = np.append(V[q][2], V[q][2][:e])
    elif kind == "uextra":
        dims["u_matrix_count"] += 1
        e = V["u_matrix_row_count"][2][0]; dims["u_matrix_row_count_sum"] += int(e)
        V["u_matrix_row_count"][2] = np.append(V["u_matrix_row_count"][2], e); V["u_matrix_val"][2] = np.append(V["u_matrix_val"][2], V["u_matrix_val"][2][:e])
    elif kind == "rows":
        e = dims["w_matrix_row_count"] + int(r.choice([-1, 1])); dims["w_matrix_row_count"] = e
        x = V["w_matrix_row"][2]; V["w_matrix_row"][2] = np.resize(np.pad(x, ((0, 0), (0, 1)), "edge")[:, :e], (x.shape[0], e))
    elif kind == "nnzsum":
        V["w_matrix_nnz"][2][0] += 1
    elif kind == "usum":
        V["u_matrix_row_count"][2][r.randint(dims["u_matrix_count"])] += 1
    elif kind in ("gapw", "gapu"):
        q = kind[-1]
        full = np.concatenate([V["%s_matrix_use%d" % (q, s)][2] for s in (1, 2)]); mx = full.max()
        if mx < 2: return False
        z = 1 + r.randint(mx - 1)
        for s in (1, 2):
            y = V["%s_matrix_use%d" % (q, s)][2]; y[y == z] = mx if kind == "gapw" else mx
    elif kind in ("wnou", "unow"):
        q = "u" if kind == "wnou" else "w"
        other = "w" if q == "u" else "u"
        c = [(s, k) for s in (1, 2) for k in range(len(V["%s_matrix_use%d" % (q, s)][2])) if V["%s_matrix_use%d" % (q, s)][2][k]]
        z = [(s, k) for s in (1, 2) for k in range(len(V["%s_matrix_use%d" % (q, s)][2])) if not V["%s_matrix_use%d" % (q, s)][2][k]]
        if not z: return False
        s, k = z[r.randint(len(z))]
        V["%s_matrix_use%d" % (other, s)][2][k] = 1
    elif kind == "width":
        k = r.randint(dims["u_matrix_count"]); V["u_matrix_row_count"][2][k] += 1
        dims["u_matrix_row_count_sum"] += 1; V["u_matrix_val"][2] = np.append(V["u_matrix_val"][2], 0.5)
    elif kind == "width2":                    # a later variable of a shared matrix has a vector of another length
        c = [(s, k) for s in (1, 2) for k in range(len(V["w_matrix_use%d" % s][2]))]
        wu = [V["w_matrix_use%d" % s][2][k] for s, k in c]; uu = [V["u_matrix_use%d" % s][2][k] for s, k in c]
        z = [j for j in range(len(c)) if wu[j] and wu[j] in wu[:j]]
        if not z: return False
        j = z[-1]
        if uu.count(uu[j]) > 1:
            dims["u_matrix_count"] += 1
            n = dims["u_matrix_count"]; e = int(V["u_matrix_row_count"][2][uu[j] - 1]) + 1
            V["u_matrix_use%d" % c[j][0]][2][c[j][1]] = n
            V["u_matrix_row_count"][2] = np.append(V["u_matrix_row_count"][2], e)
        else: V["u_matrix_row_count"][2][uu[j] - 1] += 1; e = 1
        dims["u_matrix_row_count_sum"] += e; V["u_matrix_val"][2] = np.append(V["u_matrix_val"][2], [0.5] * e)
    elif kind in ("uzero", "uneg"):
        x = V["u_matrix_val"][2]; x[r.randint(len(x))] = 0 if kind == "uzero" else -0.5
    elif kind == "negcol":
        x = V["w_matrix_col"][2]; k = np.where(x < x.max())[0]
        if not len(k): return False
        x[k[0]] = -1
    elif kind == "negrow":
        V["w_matrix_row"][2][0, 0] = -1
    os.remove(path)
    g = Dataset(path, "w")
    for k, x in at.items(): g.setncattr(k, x)
    for k, n in dims.items(): g.createDimension(k, n)
    for k, (t, dm, x) in V.items():
        h = g.createVariable(k, t, dm); h[:] = x
    g.close()
    return True


def verdict(mod, path):
    out = io.StringIO()
    with contextlib.redirect_stdout(out): res = mod.main(path)
    return bool(res), out.getvalue()


def check(p):
    mod = importlib.import_module("harmonisation_input_checker")
    d = tempfile.mkdtemp()
    try:
        F = gen.Files(p); path = F.write(d)[0]
        r = gen.rs(p, "spoil")
        bad, text = False, ""
        if p["kind"] == "valid":
            bad, text = verdict(mod, path)
            return [("C22:valid file reported", text[-700:])] if bad else []
        if not spoil(path, F.f[0], p["kind"], p["var"], r): return []
        b = open(path, "rb").read()
        try: bad, text = verdict(mod, path)
        except Exception as e: return [("C22:%s raises" % p["kind"], "%s %s: %r" % (p["kind"], p["var"], e))]
        out = []
        if open(path, "rb").read() != b: out.append(("C22:file changed", p["kind"]))
        if not bad: out.append(("C22:%s %s not reported" % (p["kind"], p["var"]), text[-500:]))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
