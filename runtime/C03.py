import numpy as np
import scipy.sparse as sp
from runtime import gen, rd
RULE = "one case = random files with every mix of the four correlation forms, shared and repeated weighting matrices, opened; every block's uncertainty compared"


def cases(rng, tier):
    for z in range(170 if tier == "quick" else 1600):
        yield gen.payload(rng, forms=[(1, 2, 3, 4), (1, 2), (3, 4), (2, 4), (1, 2, 3)][z % 5], consistent=z % 3 != 0, min_n=1 if z % 4 == 0 else 2)


def nontrivial(p): return any(f > 1 for s in p["forms"] for q in s for f in q)


def dense(w): return w.toarray() if sp.issparse(w) else np.asarray(w)


def check(p):
    mu, F, L = rd.opened(p)
    out, sysn = [], []
    for b, (v, s, pos) in enumerate(L.blocks):
        q = rd.block_of(mu.idx, L, b)
        if q is None: out.append(("C03:block", "no unique block")); continue
        un, d, S = mu.unc[q], F.f[s], str(pos + 1)
        t = d["type" + S][v]
        where = "series %d position %s variable %d (form %d)" % (s + 1, S, v + 1, t)
        if un.typeID != t: out.append(("C03:form", "%s opened with form %r" % (where, un.typeID))); continue
        if t in (1, 2) and not np.allclose(np.asarray(un.uR, dtype=float), d["Ur" + S][:, v], rtol=1e-6): out.append(("C03:uR", "%s: %r, file has %r" % (where, un.uR, d["Ur" + S][:, v])))
        if t in (2, 4):
            want = d["Us" + S][:, v]
            if not np.allclose(np.asarray(un.uS, dtype=float) * np.ones(d["n"]), want, rtol=1e-6): out.append(("C03:uS form %d" % t, "%s: %r, file has %r" % (where, un.uS, want)))
            key = (L.n_sensor[b], v)
            if key not in sysn: sysn.append(key)
            if getattr(un, "uS_i", None) != sysn.index(key) + 1: out.append(("C03:systematic number", "%s has systematic error %r, expected %d" % (where, getattr(un, "uS_i", None), sysn.index(key) + 1)))
        if t in (3, 4):
            W, u = d["W"][d["wuse"][pos][v] - 1], d["u"][d["uuse"][pos][v] - 1]
            w = mu.w_matrices[un.w_i]; uu = np.asarray(mu.u_matrices[un.u_i], dtype=float)
            w = dense(w) if hasattr(w, "shape") else np.zeros((0, 0))
            if w.shape != W.shape or not np.allclose(w, W, rtol=1e-6): out.append(("C03:w matrix", "%s: %r, file has %r" % (where, w, W)))
            if uu.shape != u.shape or not np.allclose(uu, u, rtol=1e-6): out.append(("C03:u matrix", "%s: %r, file has %r" % (where, uu, u)))
    if len(mu.unck) != len(F.f): out.append(("C03:unck", "%d adjustment uncertainties for %d series" % (len(mu.unck), len(F.f))))
    else:
        for s, d in enumerate(F.f):
            if not np.allclose(np.asarray(mu.unck[s].uR, dtype=float), np.sqrt(d["Kr"] ** 2 + d["Ks"] ** 2), rtol=1e-6): out.append(("C03:unck", "series %d: %r" % (s + 1, mu.unck[s].uR)))
    return out
