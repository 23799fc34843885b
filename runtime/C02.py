import datetime
import numpy as np
from runtime import gen, rd
RULE = "one case = random files (series, pairings, optional index / additional variables present in some files only), opened; every element compared"


def cases(rng, tier):
    for _ in range(150 if tier == "quick" else 1500): yield gen.payload(rng, forms=(1,))


def same_time(d, t):
    if isinstance(d, (int, float, np.number)): return int(d) == int(t)
    return int(round(d.timestamp())) == int(t) or (d - datetime.datetime(1970, 1, 1)).total_seconds() == int(t)


def check(p):
    mu, F, L = rd.opened(p)
    out = []
    for b, (v, s, pos) in enumerate(L.blocks):
        q = rd.block_of(mu.idx, L, b)
        if q is None: out.append(("C02:block", "no unique block for series %d sensor %s variable %d" % (s + 1, L.sensors[L.Im[s][pos]], v + 1))); continue
        got = np.asarray(mu.values[mu.idx["idx"][q]:mu.idx["idx"][q + 1]], dtype=np.float32)
        want = F.f[s]["X%d" % (pos + 1)][:, v].astype(np.float32)
        if not np.array_equal(got, want): out.append(("C02:values", "series %d sensor position %d variable %d holds %r, file has %r" % (s + 1, pos + 1, v + 1, got, want)))
    for s, d in enumerate(F.f):
        a, z = L.cNm[s], L.cNm[s + 1]
        if not np.allclose(np.asarray(mu.ks[a:z], dtype=float), d["K"], rtol=1e-6): out.append(("C02:K", "series %d: %r, file has %r" % (s + 1, mu.ks[a:z], d["K"])))
        for nm in ("time1", "time2"):
            got = getattr(mu, nm)[a:z]
            if len(got) != d["n"] or not all(same_time(x, t) for x, t in zip(got, d[nm])): out.append(("C02:" + nm, "series %d: %r, file has %r" % (s + 1, list(got), d[nm])))
    for nm in ("across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2"):
        got = getattr(mu, nm)
        if not any(nm in d["opt"] for d in F.f):
            if got is not None: out.append(("C02:" + nm, "absent from every file but %r" % (got,)))
            continue
        want = np.concatenate([d["opt"].get(nm, np.full(d["n"], np.nan)) for d in F.f])
        if got is None or not np.array_equal(np.asarray(got, dtype=float), want, equal_nan=True): out.append(("C02:" + nm, "%r, files have %r" % (got, want)))
    names = sorted(set(k for d in F.f for k in d["add"]))
    have = list(mu.idx["additional_values_name"])
    if sorted(have) != names: out.append(("C02:additional names", "%r, files have %r" % (have, names)))
    for nm in set(have) & set(names):
        want = np.concatenate([d["add"].get(nm, np.full(d["n"], np.nan)) for d in F.f])
        want = np.where(want == -1e30, np.nan, want)
        got = np.asarray(mu.additional_values)[:, have.index(nm)]
        if not np.allclose(got, want, rtol=1e-6, equal_nan=True): out.append(("C02:additional values", "%s: %r, files have %r" % (nm, got, want)))
    return out
