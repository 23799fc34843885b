import os, shutil, tempfile
import numpy as np
import scipy.sparse as sp
from runtime import gen, boot
RULE = "one case = a random list of 1..6 sparse matrices (common row count, differing columns and fill; some of tens of thousands of columns and entries) and 1..6 uncertainty vectors, packed, written to a file and read back by number"


def cases(rng, tier):
    for _ in range(220 if tier == "quick" else 2500):
        yield {"seed": rng.randrange(10 ** 9), "n": rng.randint(1, 8), "nw": rng.randint(1, 6), "nu": rng.randint(1, 6), "mod": rng.randint(0, 3), "big": _ % 24 == 5}


def nontrivial(p): return p["nw"] > 1 or p["nu"] > 1


def modules(p):
    """The tree holds copies of the packing and appending functions: each case uses one of them."""
    import W_matrix_functions as WF
    if p.get("mod", 0) in (0, 3): return WF, WF
    if p["mod"] == 1:
        import pmh2fiduceo as PF
        return PF, PF
    import AVHRR_to_updated_spec as A
    return WF, A


def check(p):
    WF, AF = modules(p)
    from harmonisation.core.matchup.matchupIO.MatchUpReader import MatchUpReader
    from netCDF4 import Dataset
    r = gen.rs(p, "w")
    W = []
    for _ in range(p["nw"]):
        a = gen.random_w(r, p["n"])
        if p["n"] > 1 and r.rand() < 0.4:
            a[r.randint(p["n"])] = 0                     # a match-up row without entries
            if not a.any(): a[0, 0] = 0.5
        if p.get("big") and not W:                            # as wide and as full as a day of data
            a = np.hstack([a, np.zeros((p["n"], 70000))])
            a[r.randint(p["n"]), -40000:] = 0.25
        W.append(sp.csr_matrix(a))
    U = [r.uniform(0.1, 3, 40000 if p.get("big") and not k else r.randint(1, 7)) for k in range(p["nu"])]
    Wd, Ud = [w.toarray() for w in W], [u.copy() for u in U]
    out = []
    val, row, col, nnz, cnt, uval = WF.return_w_matrix_variables(W, U)
    for nm, got, want in (("nnz", nnz, [w.nnz for w in W]), ("val", val, np.concatenate([w.data for w in W])), ("col", col, np.concatenate([w.indices for w in W])),
                          ("row", row, np.array([w.indptr for w in W])), ("u row count", cnt, [len(u) for u in U]), ("u val", uval, np.concatenate(U))):
        if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-12): out.append(("C04:packed " + nm, "%r, expected %r" % (got, want)))
    d = tempfile.mkdtemp(dir=boot.TREE)
    try:
        path = os.path.join(d, "w.nc")
        g = Dataset(path, "w"); g.createDimension("M", p["n"]); g.createDimension("m1", 3); g.createDimension("m2", 2); g.close()
        use = [r.randint(0, p["nw"] + 1, 3), r.randint(0, p["nw"] + 1, 2), r.randint(0, p["nu"] + 1, 3), r.randint(0, p["nu"] + 1, 2)]
        AF.append_W_to_input_file(path, val, row, col, nnz, cnt, uval, *use)
        g = Dataset(path)
        try:
            for nm, want in zip(("w_matrix_use1", "w_matrix_use2", "u_matrix_use1", "u_matrix_use2"), use):
                if not np.array_equal(np.asarray(g.variables[nm][:]), want): out.append(("C04:" + nm, "%r, expected %r" % (g.variables[nm][:], want)))
            rd = MatchUpReader()
            for k in range(p["nw"]):
                w = rd._open_w_matrix(g, k + 1)
                full = np.zeros(Wd[k].shape)
                ends = np.asarray(w.indptr)
                if len(w.indices) and (w.indices.min() < 0 or w.indices.max() >= w.shape[1]) or ends[0] != 0 or (np.diff(ends) < 0).any() or ends[-1] != len(w.data) or len(ends) != w.shape[0] + 1:
                    out.append(("C04:w matrix structure", "number %d: columns %r, row starts %r, %d values, shape %r" % (k + 1, w.indices, ends, len(w.data), w.shape)))
                    continue
                t = w.toarray()
                if t.shape[0] == full.shape[0] and t.shape[1] <= full.shape[1]: full[:, :t.shape[1]] = t
                else: full = None
                if full is None or not np.allclose(full, Wd[k], rtol=1e-6): out.append(("C04:w matrix", "number %d reads back as %r, packed %r" % (k + 1, t, Wd[k])))
            for k in range(p["nu"]):
                u = np.asarray(rd._open_u_matrix(g, k + 1))
                if u.shape != Ud[k].shape or not np.allclose(u, Ud[k], rtol=1e-6): out.append(("C04:u vector", "number %d reads back as %r, packed %r" % (k + 1, u, Ud[k])))
        finally: g.close()
    finally: shutil.rmtree(d, ignore_errors=True)
    for w, a in zip(W, Wd):
        if not np.array_equal(w.toarray(), a): out.append(("C04:input modified", "a given matrix was modified"))
    return out
