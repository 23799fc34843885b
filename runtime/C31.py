import io, logging, os, shutil, sys, tempfile
import numpy as np
from runtime import gen, boot
RULE = "one case = one random input file (AVHRR with the three bands, reference or not, unusable averages, with or without temperature limit; microwave with every instrument pair; simulated text files with several series) converted for real, every output file compared with the input"
NAMES = {-12: "aatsr", -11: "atsr2", -10: "atsr1", -1: "m02", 19: "n19", 18: "n18", 17: "n17", 16: "n16", 15: "n15", 14: "n14", 12: "n12", 11: "n11", 10: "n10", 9: "n09", 8: "n08", 7: "n07"}
EXTRA = [("latitude", "lat2"), ("longitude", "lon2"), ("satza", "vza2"), ("solza", "sza2"), ("ref_latitude", "lat1"), ("ref_longitude", "lon1"), ("ref_satza", "vza1"), ("ref_solza", "sza1")]


def cases(rng, tier):
    for z in range(60 if tier == "quick" else 900):
        kind = ("avhrr", "avhrr", "mw", "pmh")[z % 4]
        p = {"kind": kind, "seed": rng.randrange(10 ** 9), "n": rng.randint(1, 7)}
        if kind == "avhrr": p.update(ref=rng.random() < 0.4, band=rng.choice([37, 11, 12]), k=rng.choice([1, 2, 5]), bad=rng.random() < 0.6, lim=rng.random() < 0.4, extra=rng.random() < 0.7)
        if kind == "mw": p.update(pair=rng.choice([("18", "15"), ("18", "ma"), ("19", "mb"), ("16", "19"), ("mb", "17"), ("15", "16")]))
        if kind == "pmh":
            p.update(sizes=[rng.randint(1, 6) for _ in range(rng.randint(1, 3))], types=rng.choice([["MA", "R", "RS"], ["MA", "MA", "R", "RS"], ["R", "RS"], ["RS"], ["R", "MA"], ["MA"]]), k=rng.choice([1, 2, 5]), ref=rng.random() < 0.7,
                     odd=rng.choice(["", "", "", "", "k", "u", "ku"]))
        yield p


def windows(times, dt, k, w):
    """W as an array, columns in use in order of time; and the line of every match-up."""
    lines = np.array([int(round(float(t - times[0]) / dt)) for t in times])
    cov = sorted(set(x + q for x in lines for q in range(k)))
    col = dict((c, i) for i, c in enumerate(cov))
    E = np.zeros((len(times), len(cov)))
    for i in range(len(times)):
        for q in range(k): E[i, col[lines[i] + q]] = w[q]
    return E, lines, col


def matrices(g):
    """Weighting matrices and uncertainty vectors stored in a file."""
    v = lambda nm: np.asarray(np.ma.filled(g.variables[nm][:], -99))
    W, u = [], []
    st = np.concatenate([[0], np.cumsum(v("w_matrix_nnz"))])
    rows = v("w_matrix_row")
    for q in range(len(st) - 1):
        val, col, row = v("w_matrix_val")[st[q]:st[q + 1]], v("w_matrix_col")[st[q]:st[q + 1]], rows[q]
        A = np.zeros((len(row) - 1, (max(col) + 1) if len(col) else 0))
        for i in range(len(row) - 1):
            for z in range(row[i], row[i + 1]): A[i, col[z]] += val[z]
        W.append(A)
    st = np.concatenate([[0], np.cumsum(v("u_matrix_row_count"))])
    for q in range(len(st) - 1): u.append(v("u_matrix_val")[st[q]:st[q + 1]])
    return W, u


def near(a, b):
    a, b = np.asarray(np.ma.filled(a, -99) if np.ma.isMaskedArray(a) else a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-7, equal_nan=True)


def column(out, name, g, s, q, E, lines, col, k, cand, only=None):
    """Variable q of sensor s has matrix E and an uncertainty vector from the candidates (per line)."""
    W, u = matrices(g)
    wu, uu = int(g.variables["w_matrix_use%d" % s][q]), int(g.variables["u_matrix_use%d" % s][q])
    if not (1 <= wu <= len(W) and 1 <= uu <= len(u)): out.append((name + " matrix", "sensor %d variable %d has matrix %d, vector %d" % (s, q, wu, uu))); return
    if not near(W[wu - 1], E): out.append((name + " matrix", "sensor %d variable %d: %r, expected %r" % (s, q, W[wu - 1], E))); return
    if len(u[uu - 1]) != E.shape[1]: out.append((name + " uncertainty vector", "sensor %d variable %d: %d values for %d columns" % (s, q, len(u[uu - 1]), E.shape[1]))); return
    for c, i in col.items():
        xs = [cand[r][c - lines[r]] for r in range(len(lines)) if 0 <= c - lines[r] < k]
        if not any(abs(u[uu - 1][i] - x) <= 1e-5 * abs(x) for x in xs): out.append((name + " uncertainty vector", "sensor %d variable %d line %d: %r, supplied %r" % (s, q, c, u[uu - 1][i], xs))); return


def quietly(f, *a):
    old, sys.stdout, off = sys.stdout, io.StringIO(), logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try: return f(*a)
    finally:
        sys.stdout = old
        logging.disable(off)


def check(p):
    d = tempfile.mkdtemp(dir=boot.TREE)
    try: return {"avhrr": avhrr, "mw": mw, "pmh": pmh}[p["kind"]](p, d)
    finally: shutil.rmtree(d, ignore_errors=True)


AV = {}


def avhrr(p, d):
    from netCDF4 import Dataset
    import AVHRR_to_updated_spec as A
    r = gen.rs(p, "avhrr"); n, k, ref = p["n"], p["k"], p["ref"]
    H = r.uniform(1, 900, (n, 10)); Ur = r.uniform(0.01, 1, (n, 10)); Us = r.uniform(0.01, 1, (n, 10))
    if ref: H[:, 1:5] = np.nan; Ur[:, 1:5] = np.nan; Us[:, 1:5] = np.nan
    K, Kr, Ks = r.uniform(-1, 1, n), r.uniform(0.1, 1, n), r.uniform(0.1, 1, n)
    t = [4e8 + 0.5 * r.randint(0, 9 if r.rand() < 0.6 else 4000, n) for _ in "12"]
    cal = dict((nm, r.uniform(0.1, 2, (n, k))) for nm in ("ref_cal_Sp_Ur", "ref_cal_BB_Ur", "cal_Sp_Ur", "cal_BB_Ur"))
    ok = np.ones(n, dtype=bool)
    sure = r.randint(0, n)
    if p["bad"]:
        for i in range(n):
            if i != sure and r.rand() < 0.4: ok[i] = False; cal[r.choice(sorted(cal))][i, r.randint(0, k)] = np.nan
    bt = [r.uniform(250, 300, n) for _ in "12"]
    lim, clean = None, ok.copy()
    if p["lim"]:
        bt[1][sure] = 299.9
        lim = float(r.uniform(255, 295))
        ok &= ~(bt[1] < lim)
    ids = (-12, 19) if ref else (int(r.choice([19, 18, 15, 12])), int(r.choice([-1, 17, 16, 14])))
    path = os.path.join(d, "in_%d.nc" % p["seed"])
    g = Dataset(path, "w")
    for nm, z in (("M", n), ("ten", 10), ("k", k), ("L", 1), ("three", 3)): g.createDimension(nm, z)
    def put(nm, dims, x, t="f8"): g.createVariable(nm, t, dims)[:] = x
    put("H", ("M", "ten"), H); put("Ur", ("M", "ten"), Ur); put("Us", ("M", "ten"), Us)
    put("K", ("M",), K); put("Kr", ("M",), Kr); put("Ks", ("M",), Ks); put("lm", ("L", "three"), [[ids[0], ids[1], n]], "i4")
    put("ref_time_matchup", ("M",), t[0]); put("time_matchup", ("M",), t[1])
    for nm, x in cal.items(): put(nm, ("M", "k"), x)
    b = "%02d" % p["band"]
    put("ref_BT" + b, ("M",), bt[0]); put("BT" + b, ("M",), bt[1])
    ex = dict((nm, r.uniform(-90, 90, n)) for nm, _ in EXTRA) if p["extra"] else {}
    for nm, x in ex.items(): put(nm, ("M",), x)
    g.close()
    od = os.path.join(d, "out")
    out = []
    # (the checker reads each file: property C22)
    for name, f in (("test_input_file", lambda path: None), ("get_new_name", AV.setdefault("get_new_name", A.get_new_name))): setattr(A, name, f)
    while True:
        try:
            quietly(A.main, path, od, lim) if lim is not None else quietly(A.main, path, od)
            break
        except TypeError as e:          # recorded finding: the masked scalars netCDF4 returns are not hashable
            if "unhashable type: 'MaskedArray'" not in str(e) or any(k == "C31:avhrr sensor IDs" for k, _ in out): raise
            out.append(("C31:avhrr sensor IDs", "TypeError: %s" % e))
            A.get_new_name = lambda z: AV["get_new_name"](int(z))
        except KeyError as e:           # recorded finding: BT11 is renamed to BT before the limit is applied to it
            if lim is None or e.args != ("BT11",): raise
            out.append(("C31:avhrr temperature limit", "KeyError: %s" % e))
            lim, ok = None, clean
    found = sorted(os.path.relpath(os.path.join(a, f), od) for a, _, fs in os.walk(od) for f in fs)
    def variants(band):
        want = {}
        for mode in ("RSW_", "R_W_", "R___"):
            for npar, code in ((4, {37: "105"}.get(band, "101")), (5, {37: "106"}.get(band, "102"))): want[os.path.join("AVHRR_REAL_%s_%s" % (code, mode), os.path.basename(path))] = (mode, npar)
        return want
    want = variants(p["band"])
    if p["band"] == 37 and found == sorted(variants(11)):      # recorded finding: the band is compared with a string
        want = variants(11)
        out.append(("C31:avhrr 37 directories", "%r" % found))
    if found != sorted(want): return out + [("C31:avhrr files", "%r, expected %r" % (found, sorted(want)))]
    Ur[:, [5, 6]] = 0
    if ref: Us[:, 0] = 0
    else: Ur[:, [0, 1]] = 0
    idx = np.flatnonzero(ok)
    mats = []
    for s, cs in ((0, ("ref_cal_Sp_Ur", "ref_cal_BB_Ur")), (1, ("cal_Sp_Ur", "cal_BB_Ur"))):
        mats.append(windows(t[s][idx], 0.5, k, np.ones(k) / k) + ([cal[c][idx] for c in cs],))
    for f, (mode, npar) in sorted(want.items()):
        g = Dataset(os.path.join(od, f)); nm0 = "C31:avhrr %s" % mode
        try:
            if (g.sensor_1_name, g.sensor_2_name) != (NAMES[ids[0]], NAMES[ids[1]]): out.append((nm0 + " sensor names", "%s %s" % (g.sensor_1_name, g.sensor_2_name)))
            exp = {"K": K[idx], "Kr": Kr[idx], "Ks": Ks[idx], "time1": t[0][idx], "time2": t[1][idx], "original_indices": idx, "nominal_measurand1": bt[0][idx], "nominal_measurand2": bt[1][idx]}
            for s in (1, 2):
                m = 1 if ref and s == 1 else npar
                o = 5 * (s - 1)
                exp["X%d" % s] = H[idx, o:o + m]
                exp["Us%d" % s] = Us[idx, o:o + m] if mode == "RSW_" else np.zeros((len(idx), m))
                u = Ur[idx, o:o + m].copy()
                if mode == "R___" and m > 1:
                    # window mean of the uncertainties per line: from the vectors of the file with matrices
                    h = Dataset(os.path.join(od, f.replace("R___", "R_W_")))
                    W, uv = matrices(h)
                    for q in (0, 1): u[:, q] = W[int(h.variables["w_matrix_use%d" % s][q]) - 1].dot(uv[int(h.variables["u_matrix_use%d" % s][q]) - 1])
                    h.close()
                exp["Ur%d" % s] = u
                ty = [1] if m == 1 else {"RSW_": [3, 3, 1, 2, 2], "R_W_": [3, 3, 1, 1, 1], "R___": [1] * 5}[mode][:m]
                exp["uncertainty_type%d" % s] = ty
                if npar == 4 and m > 1: exp["To%d" % s] = H[idx, o + 4]
                if mode != "R___":
                    E, lines, col, cs = mats[s - 1]
                    if m == 1:
                        if int(g.variables["w_matrix_use1"][0]) or int(g.variables["u_matrix_use1"][0]): out.append((nm0 + " matrix", "reference sensor has one"))
                    else:
                        for q in range(m):
                            if q < 2: column(out, nm0, g, s, q, E, lines, col, k, cs[q])
                            elif int(g.variables["w_matrix_use%d" % s][q]) or int(g.variables["u_matrix_use%d" % s][q]): out.append((nm0 + " matrix", "variable %d has one" % q))
            if p["extra"]:
                for a, b2 in EXTRA: exp[b2] = ex[a][idx]
            compare(out, nm0, g, exp, mode != "R___")
        finally: g.close()
    return out


WV = set(("w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_val", "u_matrix_use1", "u_matrix_use2"))


def compare(out, nm0, g, exp, has_w):
    if set(g.variables) != set(exp) | (WV if has_w else set()): out.append((nm0 + " variables", sorted(set(g.variables) ^ (set(exp) | (WV if has_w else set())))))
    for nm, x in sorted(exp.items()):
        if nm in g.variables and not near(g.variables[nm][:], x): out.append(("%s %s" % (nm0, nm), "%r, expected %r" % (np.asarray(g.variables[nm][:]), x)))


def mw(p, d):
    from netCDF4 import Dataset
    import MW_add_W_matrices as M
    r = gen.rs(p, "mw"); n = p["n"]
    kind = dict((x, "AMSUB") for x in ("15", "16", "17")); kind.update((x, "MHS") for x in ("19", "ma", "mb")); kind["18"] = "ref"
    size, navg = {"ref": 1, "AMSUB": 11, "MHS": 9}, {"ref": 0, "AMSUB": 9, "MHS": 7}
    types = {"ref": [1], "AMSUB": [3, 3] + [4] * 7 + [1, 2], "MHS": [3, 3] + [4] * 5 + [1, 2]}
    q = [kind[x] for x in p["pair"]]; m = [size[x] for x in q]
    path, res = os.path.join(d, "in.nc"), os.path.join(d, "res.nc")
    g = Dataset(path, "w"); g.sensor_1_name, g.sensor_2_name = p["pair"]
    for nm, z in (("M", n), ("m1", m[0]), ("m2", m[1])): g.createDimension(nm, z)
    exp = {}
    def put(nm, dims, x, t="f8"):
        g.createVariable(nm, t, dims)[:] = x
        exp[nm] = np.array(x)
    dt = 8.0 / 3
    for s in (1, 2):
        for nm in ("X", "Ur", "Us"): put("%s%d" % (nm, s), ("M", "m%d" % s), np.tile(r.uniform(0.1, 2, m[s - 1]), (n, 1)) if nm == "Ur" else r.uniform(0.1, 2, (n, m[s - 1])))
        put("uncertainty_type%d" % s, ("m%d" % s,), [1] * m[s - 1], "i4")
        put("time%d" % s, ("M",), 4e8 + dt * r.randint(0, 12 if r.rand() < 0.7 else 4000, n) + r.uniform(-0.3, 0.3, n))
    for nm in ("K", "Kr", "Ks"): put(nm, ("M",), r.uniform(0.1, 2, n))
    put("lat", ("M",), r.uniform(-90, 90, n))
    g.close()
    uin = [exp["Ur%d" % s].copy() for s in (1, 2)]
    keep = open(path, "rb").read()
    old, M.test_input_file = M.test_input_file, lambda path: None
    try: quietly(M.run, path, res)
    finally: M.test_input_file = old
    out = []
    if open(path, "rb").read() != keep: out.append(("C31:microwave input modified", path))
    g = Dataset(res)
    w = np.array([0.0625, 0.125, 0.1875, 0.25, 0.1875, 0.125, 0.0625])
    try:
        if (g.sensor_1_name, g.sensor_2_name) != tuple(p["pair"]): out.append(("C31:microwave sensor names", "%s %s" % (g.sensor_1_name, g.sensor_2_name)))
        for s in (1, 2):
            exp["uncertainty_type%d" % s] = types[q[s - 1]]
            exp["Ur%d" % s][:, :navg[q[s - 1]]] = 0
        compare(out, "C31:microwave", g, exp, True)
        if not out:
            for s in (1, 2):
                E, lines, col = windows(exp["time%d" % s], dt, 7, w)
                for v in range(m[s - 1]):
                    if v < navg[q[s - 1]]: column(out, "C31:microwave", g, s, v, E, lines, col, 7, np.tile(uin[s - 1][0, min(v, 2)], (n, 7)))
                    elif int(g.variables["w_matrix_use%d" % s][v]): out.append(("C31:microwave matrix", "sensor %d variable %d has one" % (s, v)))
    finally: g.close()
    return out


def pmh(p, d):
    from netCDF4 import Dataset
    import pmh2fiduceo as P
    r = gen.rs(p, "pmh")
    i, o = os.path.join(d, "i"), os.path.join(d, "o")
    os.mkdir(i)
    ty = p["types"]; m = len(ty); Ns = p["sizes"]; N = sum(Ns); k = p["k"]
    at = p["seed"] % len(Ns)
    pairs = [(("0", str(q + 1)) if q == at and p["ref"] else (str(q + 1), str(q + 2))) for q in range(len(Ns))]
    H = r.uniform(1, 9, (N, 2 * m + 1)).round(4)
    H = H.reshape(N, 2 * m + 1)
    at = r.uniform(-1, 1, (2, 3)).round(4)
    with open(os.path.join(i, "data_pams.txt"), "w") as f:
        f.write("Im\n" + "".join(" %s %s\n" % x for x in pairs) + "Nm\n" + "".join(" %d\n" % x for x in Ns) + "atrue\n" + "".join(" ".join("%r" % float(y) for y in x) + "\n" for x in at))
    np.savetxt(os.path.join(i, "data_vals.txt"), H)
    uref, ukr = round(r.uniform(0.1, 1), 4), round(r.uniform(0.1, 1), 4)
    u, s_, ks = [], [], []
    nma = 0
    with open(os.path.join(i, "data_uncs.txt"), "w") as f:
        f.write("reference R:\n%r\n" % uref)
        um = round(r.uniform(0.1, 1), 4)
        for q, t in enumerate(ty):
            ur, us, kk = round(r.uniform(0.1, 1), 4), round(r.uniform(0.1, 1), 4), k
            if t == "MA":
                nma += 1
                ur = um if not ("u" in p["odd"] and nma > 1) else um + 0.5
                if "k" in p["odd"] and nma > 1: kk = k + 1
            f.write("X %d %s:\n" % (q + 1, t))
            f.write({"R": "%r\n" % ur, "RS": "%r %r\n" % (ur, us), "MA": "%r %d\n" % (ur, kk)}[t])
            u.append(ur); s_.append(us if t == "RS" else 0.0); ks.append(kk)
        f.write("Kr:\n%r\n" % ukr)
    mixed = nma > 1 and p["odd"]
    try:
        quietly(P.prepare_directories, i, o)
        quietly(P.run_conversion, i, o)
    except ValueError as e:
        if mixed and "same" in str(e): return []
        raise
    if mixed: return [("C31:simulated unlike windows", "converted as if they were alike")]
    out = []
    want = ["_".join(x) + ".nc" for x in pairs]
    found = sorted(f for f in os.listdir(o) if f.endswith(".nc"))
    if found != sorted(want): return [("C31:simulated files", "%r, expected %r" % (found, sorted(want)))]
    if not near(np.loadtxt(os.path.join(o, "atrue.txt")), at): out.append(("C31:simulated true parameters", "differ"))
    at0 = 0
    T = [{"R": 1, "RS": 2, "MA": 3}[t] for t in ty]
    for f, x, n in zip(want, pairs, Ns):
        rows = H[at0:at0 + n]; at0 += n
        g = Dataset(os.path.join(o, f))
        try:
            if (g.sensor_1_name, g.sensor_2_name) != x: out.append(("C31:simulated sensor names", "%s %s" % (g.sensor_1_name, g.sensor_2_name)))
            exp = {"K": rows[:, -1], "Kr": np.full(n, ukr), "Ks": np.zeros(n)}
            tm = np.asarray(g.variables["time1"][:])
            exp["time1"] = exp["time2"] = tm
            if n > 1 and not near(np.diff(tm), np.ones(n - 1)): out.append(("C31:simulated times", "%r" % tm))
            for s in (1, 2):
                if s == 1 and x[0] == "0": exp.update(X1=rows[:, :1], Ur1=np.full((n, 1), uref), Us1=np.zeros((n, 1)), uncertainty_type1=[1]); continue
                exp["X%d" % s] = rows[:, m * (s - 1):m * s]
                exp["Ur%d" % s] = np.tile([a if t != 3 else 0.0 for a, t in zip(u, T)], (n, 1))
                exp["Us%d" % s] = np.tile(s_, (n, 1))
                exp["uncertainty_type%d" % s] = T
            compare(out, "C31:simulated", g, exp, 3 in T)
            if 3 in T and WV <= set(g.variables):
                E, lines, col = windows(tm, 1.0, k, np.ones(k) / k)
                for s in (1, 2):
                    ts = [1] if s == 1 and x[0] == "0" else T
                    for v, t in enumerate(ts):
                        if t == 3: column(out, "C31:simulated", g, s, v, E, lines, col, k, np.full((n, k), u[v]))
                        elif int(g.variables["w_matrix_use%d" % s][v]): out.append(("C31:simulated matrix", "sensor %d variable %d has one" % (s, v)))
        finally: g.close()
    return out
