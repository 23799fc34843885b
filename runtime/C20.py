import numpy as np
from runtime import gen, boot
RULE = "one case = random uncertainty windows (different widths, some NaN) of both sensors, with and without brightness temperatures and limit; every match-up also judged alone"


def cases(rng, tier):
    for z in range(400 if tier == "quick" else 5000):
        yield {"seed": rng.randrange(10 ** 9), "n": rng.randint(0, 12), "k": [rng.randint(1, 6) for _ in range(4)], "bt": z % 3, "pn": rng.choice([0, 0.03, 0.15])}


def check(p):
    from AVHRR_to_updated_spec import return_valid_averages_mask as f
    r = gen.rs(p, "m")
    n = p["n"]
    U = []
    for k in p["k"]:
        u = r.choice([0.0, 1.0, 2.5, -1.0, 1e30], (n, k)); u[r.rand(n, k) < p["pn"]] = np.nan; U.append(u)
    bt = np.where(r.rand(n) < 0.1, np.nan, r.choice([199.0, 200.0, 201.0, 300.0], n)) if p["bt"] else None
    lim = 200.0 if p["bt"] == 2 else None
    if p["bt"] == 0 and p["seed"] % 2: lim = 200.0
    kw = {}
    if bt is not None: kw["bt"] = bt
    if lim is not None: kw["temp_lim"] = lim
    keep = [u.copy() for u in U]
    m = f(*U, **kw)
    out = []
    if not all(gen.same(a, b) for a, b in zip(U, keep)): out.append(("C20:input modified", ""))
    want = [not any(np.isnan(u[i]).any() for u in U) and not (bt is not None and lim is not None and bt[i] < lim) for i in range(n)]
    if np.shape(m) != (n,): return [("C20:one entry per match-up", "%r for %d" % (np.shape(m), n))]
    if [bool(x) for x in m] != want: out.append(("C20:verdict", "%r, expected %r" % ([bool(x) for x in m], want)))
    for i in range(n):
        k1 = dict(kw)
        if bt is not None: k1["bt"] = bt[i:i + 1]
        if bool(f(*[u[i:i + 1] for u in U], **k1)[0]) != bool(m[i]): out.append(("C20:independence", "match-up %d" % i))
    return out
