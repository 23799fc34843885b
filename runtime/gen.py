"""Random match-up data for the run-time contract step: file contents, in-memory objects, reference layout.

A payload is a small JSON dictionary; everything else is derived from its seed, so a replay rebuilds the same case:
  series: [[i, j, n], ...]  sensor numbers of the pair and number of match-ups
  m:      [..]              variables per sensor
  npar:   [..]              parameters per sensor (0: reference)
  forms:  [[[..],[..]],..]  correlation form of every (series, position, variable)
  names:  [..]              sensor names
"""
import datetime, zlib
import numpy as np
import scipy.sparse as sp

NAMES = ["m02", "n19", "n18", "n17", "n16", "n15", "n14", "aatsr", "S3", "n9", "met-7", "X", "n1", "S", "m0"]


def payload(rng, forms=(1, 2), max_series=4, max_n=6, max_m=4, refs=True, consistent=True, min_n=1, w_prob=0.5, refsys=False):
    """consistent: a sensor keeps its correlation forms in every series (as real data do)."""
    ns = rng.randint(2, 5)
    m = [rng.randint(1, max_m) for _ in range(ns)]
    npar = [rng.randint(1, 3) for _ in range(ns)]
    if refs and rng.random() < 0.7: m[0], npar[0] = 1, 0
    k = rng.randint(1, max_series)
    series = []
    for _ in range(k):
        i = rng.randrange(ns)
        j = rng.choice([q for q in range(ns) if q != i])
        if refs and npar[j] == 0 and rng.random() < 0.6: i, j = j, i
        series.append([i, j, rng.randint(min_n, max_n)])
    used = []
    for i, j, _ in series: used += [q for q in (i, j) if q not in used]
    own = [[rng.choice(forms) for _ in range(x)] for x in m]
    for q in range(ns):
        if npar[q] == 0 and not (refsys and m[q] == 1 and 2 in forms and rng.random() < 0.5): own[q] = [1]
    fm = []
    for i, j, _ in series:
        fm.append([(own[q] if consistent else [1 if npar[q] == 0 and m[q] == 1 else rng.choice(forms) for _ in range(m[q])]) for q in (i, j)])
    names = rng.sample(NAMES, ns)
    return {"series": series, "m": m, "npar": npar, "forms": fm, "names": names, "seed": rng.randrange(10 ** 9),
            "opt": [rng.random() < 0.6 for _ in range(4 * k)]}


def rs(p, salt): return np.random.RandomState((p["seed"] + zlib.crc32(salt.encode())) % (2 ** 32))


def random_w(r, n, overlap=True):
    """n x c weighting matrix, every column used, consecutive windows (as rolling averages) or scattered."""
    if r.rand() < 0.6:
        w = r.randint(1, 4)
        starts = np.cumsum([0] + [r.randint(0, w + 2) for _ in range(n - 1)]) if overlap else np.arange(n) * w
        cols = sorted(set(c for s in starts for c in range(s, s + w)))
        pos = dict((c, q) for q, c in enumerate(cols))
        W = np.zeros((n, len(cols)))
        for i, s in enumerate(starts):
            for c in range(s, s + w): W[i, pos[c]] = r.uniform(0.1, 1.0)
    else:
        c = r.randint(1, n + 3)
        W = np.zeros((n, c))
        for i in range(n): W[i, r.choice(c, r.randint(1, min(3, c) + 1), replace=False)] = r.uniform(0.1, 1.0)
        for q in range(c):
            if not W[:, q].any(): W[r.randint(n), q] = r.uniform(0.1, 1.0)
    return W


def f32(x): return np.asarray(x, dtype=np.float32).astype(np.float64)


class Files(object):
    """Contents of the match-up files (one per series), as plain arrays."""

    def __init__(self, p, opt_index=True, additional=True):
        self.p, self.f = p, []
        for q, (i, j, n) in enumerate(p["series"]):
            r = rs(p, "file%d" % q)
            d = {"name": [p["names"][i], p["names"][j]], "n": n, "m": [p["m"][i], p["m"][j]]}
            for s in (1, 2):
                m = d["m"][s - 1]
                d["X%d" % s] = f32(r.uniform(1, 100, (n, m)))
                d["Ur%d" % s] = f32(r.uniform(0.1, 3, (n, m)))
                d["Us%d" % s] = f32(np.repeat(r.uniform(0.1, 3, (1, m)), n, axis=0))
                forms = p["forms"][q][s - 1]
                if rs(p, "us%d-%d" % (q, s)).rand() < 0.5:      # per-match-up systematic uncertainty
                    d["Us%d" % s] = f32(np.where(np.array(forms) == 2, rs(p, "uS%d-%d" % (q, s)).uniform(0.1, 3, (n, m)), d["Us%d" % s]))
                for k in range(m):
                    if forms[k] in (3, 4): d["Ur%d" % s][:, k] = 0
                    if forms[k] in (1, 3): d["Us%d" % s][:, k] = 0
                d["type%d" % s] = list(forms)
                d["time%d" % s] = np.round(r.uniform(1e8, 1.6e9, n), 3) if r.rand() < 0.5 else np.floor(r.uniform(1e8, 1.6e9, n))
            d["K"], d["Kr"], d["Ks"] = f32(r.uniform(-5, 5, n)), f32(r.uniform(0.1, 2, n)), f32(r.uniform(0.1, 2, n))
            # weighting matrices, shared between some variables of the file
            d["W"], d["u"] = [], []
            d["wuse"], d["uuse"] = [[0] * d["m"][0], [0] * d["m"][1]], [[0] * d["m"][0], [0] * d["m"][1]]
            for s in (0, 1):
                for k, f in enumerate(d["type%d" % (s + 1)]):
                    if f not in (3, 4): continue
                    fresh = not d["W"] or r.rand() < 0.6
                    if fresh: d["W"].append(random_w(r, n))
                    w = r.randint(len(d["W"])) if r.rand() < 0.4 and not fresh else len(d["W"]) - 1
                    cand = [x for x in range(len(d["u"])) if len(d["u"][x]) == d["W"][w].shape[1]]
                    if not cand or r.rand() < 0.7:
                        d["u"].append(f32(r.uniform(0.1, 3, d["W"][w].shape[1]))); cand = [len(d["u"]) - 1]
                    d["wuse"][s][k], d["uuse"][s][k] = w + 1, cand[-1] + 1
            d["has_w"] = bool(d["W"])
            # every stored matrix is used by some variable
            d["W"] = [x for x in d["W"]]
            d["opt"] = {}
            if opt_index:
                for z, nm in enumerate(("across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2")):
                    if p["opt"][(4 * q + z) % len(p["opt"])]: d["opt"][nm] = r.randint(0, 400, n).astype(float)
            d["add"] = {}
            if additional:
                for z, nm in enumerate(("nominal_BT1", "nominal_BT2", "lat")):
                    if r.rand() < 0.6:
                        v = f32(r.uniform(-90, 300, n)); v[r.rand(n) < 0.2] = -1e30
                        d["add"][nm] = v
            self.f.append(d)

    def write(self, directory, names=None):
        """Independent writer of the documented format."""
        import os
        from netCDF4 import Dataset
        paths = []
        for q, d in enumerate(self.f):
            path = os.path.join(directory, (names[q] if names else "mu%02d.nc" % q))
            g = Dataset(path, "w")
            g.sensor_1_name, g.sensor_2_name = d["name"]
            g.createDimension("M", d["n"]); g.createDimension("m1", d["m"][0]); g.createDimension("m2", d["m"][1])
            def var(name, t, dim, data):
                v = g.createVariable(name, t, dim); v[:] = data
            for s in ("1", "2"):
                for nm in ("X", "Ur", "Us"): var(nm + s, "f4", ("M", "m" + s), d[nm + s])
                var("uncertainty_type" + s, "i4", ("m" + s,), d["type" + s])
                var("time" + s, "f8", ("M",), d["time" + s])
            for nm in ("K", "Kr", "Ks"): var(nm, "f4", ("M",), d[nm])
            for nm, v in d["opt"].items(): var(nm, "f8", ("M",), v)
            for nm, v in d["add"].items(): var(nm, "f4" if nm == "lat" else "f8", ("M",), v)
            if d["has_w"]:
                W = [sp.csr_matrix(x) for x in d["W"]]
                g.createDimension("w_matrix_count", len(W)); g.createDimension("w_matrix_row_count", d["n"] + 1)
                g.createDimension("w_matrix_nnz_sum", sum(w.nnz for w in W))
                g.createDimension("u_matrix_count", len(d["u"])); g.createDimension("u_matrix_row_count_sum", sum(len(u) for u in d["u"]))
                var("w_matrix_nnz", "i4", ("w_matrix_count",), [w.nnz for w in W])
                var("w_matrix_row", "i4", ("w_matrix_count", "w_matrix_row_count"), [w.indptr for w in W])
                var("w_matrix_col", "i4", ("w_matrix_nnz_sum",), np.concatenate([w.indices for w in W]))
                var("w_matrix_val", "f4", ("w_matrix_nnz_sum",), np.concatenate([w.data for w in W]))
                var("u_matrix_row_count", "i4", ("u_matrix_count",), [len(u) for u in d["u"]])
                var("u_matrix_val", "f4", ("u_matrix_row_count_sum",), np.concatenate(d["u"]))
                for s in (0, 1):
                    var("w_matrix_use%d" % (s + 1), "i4", ("m%d" % (s + 1),), d["wuse"][s])
                    var("u_matrix_use%d" % (s + 1), "i4", ("m%d" % (s + 1),), d["uuse"][s])
            g.close()
            paths.append(path)
        return paths


class Layout(object):
    """The documented index structure of a set of series, computed independently of the code under test."""

    def __init__(self, p):
        self.sensors, self.ms = [], []
        for i, j, n in p["series"]:
            for q in (i, j):
                if p["names"][q] not in self.sensors: self.sensors.append(p["names"][q]); self.ms.append(p["m"][q])
        self.Nm = [n for _, _, n in p["series"]]
        self.cNm = [0]
        for n in self.Nm: self.cNm.append(self.cNm[-1] + n)
        self.Im = [[self.sensors.index(p["names"][q]) for q in (i, j)] for i, j, _ in p["series"]]
        self.blocks = []          # (variable, series, position) 0-based, in block order
        for v in range(max(self.ms)):
            for s, pair in enumerate(self.Im):
                for pos, q in enumerate(pair):
                    if self.ms[q] > v: self.blocks.append((v, s, pos))
        self.n_cov = [v + 1 for v, s, pos in self.blocks]
        self.n_mu = [s + 1 for v, s, pos in self.blocks]
        self.n_sensor = [self.Im[s][pos] for v, s, pos in self.blocks]
        self.N_var = [self.Nm[s] for v, s, pos in self.blocks]
        self.idx = [0]
        for n in self.N_var: self.idx.append(self.idx[-1] + n)

    def as_idx(self):
        return {"Nm": list(self.Nm), "cNm": list(self.cNm), "Im": [list(x) for x in self.Im], "sensors": list(self.sensors),
                "sensor_ms": list(self.ms), "n_sensor": list(self.n_sensor), "n_mu": list(self.n_mu), "n_cov": list(self.n_cov),
                "N_var": list(self.N_var), "idx": list(self.idx)}


# -- sensor and adjustment models used by the run-time step ---------------------------------------------------------------
def secs(t):
    return np.zeros(0) if t is None else np.array([x.timestamp() if hasattr(x, "timestamp") else float(x) for x in t])


class Model(object):
    """Smooth nonlinear model with exact derivatives; constants, track indices and times enter it too."""

    def __init__(self, name, m, npar, use_aux=True): self.name, self.m, self.npar, self.use_aux = name, m, npar, use_aux

    def __call__(self, X, a, c, ac, al, t):
        name, m, npar, use_aux = self.name, self.m, self.npar, self.use_aux
        h = (zlib.crc32(name.encode()) % 97) / 97.0
        X = np.asarray(X, dtype=float); a = np.asarray(a, dtype=float); c = np.asarray(c, dtype=float)
        n = X.shape[0]
        if npar == 0: return X[:, 0], None
        aux = np.zeros(n)
        if use_aux:
            for k, z in enumerate((ac, al)):
                if z is not None: aux = aux + (0.01 + 0.013 * k) * np.nan_to_num(np.asarray(z, dtype=float)) / 10
            if t is not None: aux = aux + (secs(t) % 997) / 997.0
        phi = [1.0 + 0 * aux]
        dphi = [np.zeros((n, m))]
        for k in range(1, npar):
            v = (k - 1) % m; w = k % m
            phi.append(0.3 * X[:, v] * X[:, w] / 50 + 0.2 * aux)
            g = np.zeros((n, m)); g[:, v] += 0.3 * X[:, w] / 50; g[:, w] += 0.3 * X[:, v] / 50
            dphi.append(g)
        base = aux * 0.7 + (c.sum() if c.size else 0.0) + h
        gb = np.zeros((n, m))
        for v in range(m):
            base = base + (0.5 + 0.1 * v) * X[:, v] + 0.001 * X[:, v] ** 2
            gb[:, v] += 0.5 + 0.1 * v + 0.002 * X[:, v]
        R = base + sum(a[k] * phi[k] for k in range(npar))
        J = np.zeros((n, m + npar))
        J[:, :m] = gb + sum(a[k] * dphi[k] for k in range(npar))
        for k in range(npar): J[:, m + k] = phi[k]
        return R, J


def make_model(name, m, npar, use_aux=True): return Model(name, m, npar, use_aux)


class Adjustment(object):
    def __init__(self, k): self.k = k % 3

    def __call__(self, R):
        R = np.asarray(R, dtype=float)
        if self.k == 0: return R, np.ones(len(R))
        if self.k == 1: return 1.5 * R + 2, 1.5 * np.ones(len(R))
        return R + 0.002 * R ** 2, 1 + 0.004 * R


def make_adjustment(k): return Adjustment(k)


def sensor_data(p, order=None):
    """SENSOR_DATA dictionary for the payload's sensors (parameter order differs from sensor order)."""
    r = rs(p, "sd")
    out = {}
    ids = list(range(len(p["names"])))
    r.shuffle(ids)
    for q in (order or ids):
        npar = p["npar"][q]
        d = {"sensor_model": make_model(p["names"][q], p["m"][q], npar), "sensor_model_parameter": [float(x) for x in f32(r.uniform(-1, 1, npar))],
             "sensor_model_constant": [float(x) for x in f32(r.uniform(0, 1, r.randint(0, 3)))],
             "sensor_adjustment_model": make_adjustment(q)}
        d["adjustment_model"] = d["sensor_adjustment_model"]
        out[p["names"][q]] = d
    return out


def matchup(p, files=None, aux=True, sd=None):
    """In-memory MatchUp object built directly from the file contents (independent of the reader)."""
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    F = files or Files(p)
    L = Layout(p)
    mu = MatchUp()
    mu.idx = L.as_idx()
    mu.values = np.zeros(L.idx[-1], dtype=np.float32)
    mu.unc, mu.w_matrices, mu.u_matrices = [], [], []
    wpos, upos = {}, {}
    for s, d in enumerate(F.f):
        for w, W in enumerate(d["W"]): wpos[s, w + 1] = len(mu.w_matrices); mu.w_matrices.append(sp.csr_matrix(W.astype(np.float32)))
        for u, U in enumerate(d["u"]): upos[s, u + 1] = len(mu.u_matrices); mu.u_matrices.append(U.astype(np.float32))
    sysn = []
    for b, (v, s, pos) in enumerate(L.blocks):
        d = F.f[s]; S = str(pos + 1)
        mu.values[L.idx[b]:L.idx[b + 1]] = d["X" + S][:, v]
        t = d["type" + S][v]
        uR = d["Ur" + S][:, v].astype(np.float32); uS = d["Us" + S][:, v].astype(np.float32)
        if t == 1: un = Uncertainty(1, uR)
        elif t == 2: un = Uncertainty(2, (uR, uS))
        elif t == 3: un = Uncertainty(3, (wpos[s, d["wuse"][pos][v]], upos[s, d["uuse"][pos][v]]))
        else: un = Uncertainty(4, (wpos[s, d["wuse"][pos][v]], upos[s, d["uuse"][pos][v]], uS[0]))
        if t in (2, 4):
            key = (L.n_sensor[b], v)
            if key not in sysn: sysn.append(key)
            un.uS_i = sysn.index(key) + 1
        mu.unc.append(un)
    mu.ks = np.concatenate([d["K"] for d in F.f])
    mu.unck = [Uncertainty(1, np.sqrt(d["Kr"] ** 2 + d["Ks"] ** 2)) for d in F.f]
    dt = lambda x: np.array([datetime.datetime.fromtimestamp(int(t)) for t in x], dtype=object)
    mu.time1 = np.concatenate([dt(d["time1"]) for d in F.f]); mu.time2 = np.concatenate([dt(d["time2"]) for d in F.f])
    for nm in ("across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2"):
        if any(nm in d["opt"] for d in F.f):
            setattr(mu, nm, np.concatenate([d["opt"].get(nm, np.full(d["n"], np.nan)) for d in F.f]))
    names = sorted(set(k for d in F.f for k in d["add"]))
    if names:
        mu.idx["additional_values_name"] = names
        cols = [np.concatenate([d["add"].get(k, np.full(d["n"], np.nan)) for d in F.f]) for k in names]
        mu.additional_values = np.array(cols).T
    sd = sd or sensor_data(p)
    par, ps, con, cs = [], [], [], []
    for s in sd:
        if s in L.sensors:
            par += sd[s]["sensor_model_parameter"]; ps += [s] * len(sd[s]["sensor_model_parameter"])
            con += sd[s]["sensor_model_constant"]; cs += [s] * len(sd[s]["sensor_model_constant"])
    mu.a = np.asarray(par, dtype=np.float32)
    mu.sensor_data = sd
    mu.sensor_model_constant = con
    mu.sensor_model = [sd[s]["sensor_model"] for s in L.sensors]
    mu.adjustment_model = [sd[s]["sensor_adjustment_model"] for s in L.sensors]
    mu.idx["parameter_sensor"], mu.idx["sensor_model_constant_sensor"] = ps, cs
    import copy
    mu._original_idx = copy.deepcopy(mu.idx)
    return mu, L, F


def snapshot(mu):
    """Deep, comparable copy of a match-up object's data."""
    import copy
    def c(x):
        if isinstance(x, np.ndarray): return x.copy()
        if sp.issparse(x): return x.toarray()
        if isinstance(x, (list, tuple)): return [c(y) for y in x]
        if isinstance(x, dict): return dict((k, c(v)) for k, v in x.items())
        if hasattr(x, "typeID"): return dict((k, c(v)) for k, v in vars(x).items())
        return x
    return dict((k, c(v)) for k, v in vars(mu).items())


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: return False
        if a.dtype == object or b.dtype == object: return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f"))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    try: return bool(a == b)
    except Exception: return a is b


def diff_snapshot(a, b):
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k]))
