import datetime as dt
import numpy as np
from runtime import gen, boot
RULE = "one case = random samples (times on and off interval boundaries, unordered; coordinates on and off bin edges) averaged with one interval or bin count"


def cases(rng, tier):
    for z in range(400 if tier == "quick" else 5000):
        yield {"seed": rng.randrange(10 ** 9), "n": rng.randint(1, 14), "period": ["hour", "day", "month", "year"][z % 4], "bins": rng.choice([1, 2, 3, 7, 20]), "range": z % 3}


def check(p):
    from harmonisation.core.utils import stats
    r = gen.rs(p, "s")
    out = []
    n, per = p["n"], p["period"]
    y = r.uniform(-5, 5, n)
    span = {"hour": 60 * 30, "day": 60 * 24 * 20, "month": 60 * 24 * 400, "year": 60 * 24 * 365 * 6}[per]
    base = dt.datetime(1999 + r.randint(3), r.randint(1, 13), r.randint(1, 29), r.randint(24), r.randint(60))
    def start(t):
        return {"hour": dt.datetime(t.year, t.month, t.day, t.hour), "day": dt.datetime(t.year, t.month, t.day), "month": dt.datetime(t.year, t.month, 1), "year": dt.datetime(t.year, 1, 1)}[per]
    def nxt(t):
        if per == "hour": return t + dt.timedelta(hours=1)
        if per == "day": return t + dt.timedelta(days=1)
        if per == "month": return dt.datetime(t.year + t.month // 12, t.month % 12 + 1, 1)
        return dt.datetime(t.year + 1, 1, 1)
    T = []
    for _ in range(n):
        t = base + dt.timedelta(minutes=int(r.randint(0, span)))
        q = r.randint(5)
        if q == 0: t = start(t)
        if q == 1: t = start(t) - dt.timedelta(microseconds=1)
        T.append(t)
    times = np.array(T, dtype=object)
    y0, t0 = y.copy(), times.copy()
    av, at = stats.time_average(y, times, time_period=per)
    if not (np.array_equal(y, y0) and np.array_equal(times, t0)): out.append(("C23:input modified", ""))
    want_t = [start(min(T))]
    while want_t[-1] < start(max(T)): want_t.append(nxt(want_t[-1]))
    if list(at) != want_t or len(av) != len(want_t): out.append(("C23:intervals", "%r, expected %r" % (list(at)[:6], want_t[:6])))
    else:
        for a, t in zip(av, want_t):
            v = [y[i] for i in range(n) if t <= T[i] < nxt(t)]
            if (not v) != bool(np.isnan(a)) or (v and abs(a - np.mean(v)) > 1e-9): out.append(("C23:time average", "%s from %s: %r, expected mean of %r" % (per, t, a, v)))
    # binned statistics
    b = p["bins"]
    X = r.choice(np.arange(0, 21) / 4.0, n) if p["seed"] % 2 else r.uniform(0, 5, n)
    rng_ = None
    if p["range"]: rng_ = [0.0, 5.0] if p["range"] == 1 else [1.0, 3.5]
    if p["seed"] % 5 == 0:                                  # whole numbers: counters, scan lines
        X = r.randint(0, 30, n)
        if rng_: rng_ = [0, 25] if p["range"] == 1 else [3, 20]
    if rng_ is None and X.max() - X.min() < 1e-9: return out
    x0 = X.copy()
    lo, hi = rng_ or (X.min(), X.max())
    m, s, c = stats.bin(y, X, bins=b, X_range=rng_)
    if not (len(m) == len(s) == len(c) == b): return out + [("C23:bins", "%d %d %d for %d bins" % (len(m), len(s), len(c), b))]
    e = [lo + i * (hi - lo) / b for i in range(b + 1)]
    if not np.allclose(c, [(e[i] + e[i + 1]) / 2 for i in range(b)], atol=1e-9): out.append(("C23:bin centres", "%r" % c))
    for i in range(b):
        near = lambda x: abs(x - e[i]) < 1e-9 and x != e[i] or abs(x - e[i + 1]) < 1e-9 and x != e[i + 1] and i < b - 1
        if any(near(x) for x in X): continue
        v = [y[k] for k in range(n) if e[i] <= X[k] and (X[k] < e[i + 1] or (i == b - 1 and X[k] <= hi))]
        if (not v) != bool(np.isnan(m[i])) or (v and (abs(m[i] - np.mean(v)) > 1e-9 or abs(s[i] - np.std(v)) > 1e-9)): out.append(("C23:bin", "bin %d of %d [%r, %r]: mean %r std %r, samples %r" % (i, b, e[i], e[i + 1], m[i], s[i], v)))
    return out
