import numpy as np
from runtime import gen
RULE = "one case = a random in-memory match-up (built without the reader); every variable, sensor, series and additional variable requested, and one sensor outside each pair"


def cases(rng, tier):
    for z in range(250 if tier == "quick" else 3000): yield gen.payload(rng, forms=(1,), consistent=True)


def eq(a, b):
    if a is None or b is None: return a is None and b is None
    return gen.same(np.asarray(a), np.asarray(b))


def check(p):
    mu, L, F = gen.matchup(p)
    before = gen.snapshot(mu)
    out = []
    for s, d in enumerate(F.f):
        a, z = L.cNm[s], L.cNm[s + 1]
        for pos in (0, 1):
            name = d["name"][pos]
            where = "series %d sensor %s" % (s + 1, name)
            for v in range(d["m"][pos]):
                want = d["X%d" % (pos + 1)][:, v].astype(np.float32)
                got = mu.getVariableData(v + 1, name, s + 1)
                if not eq(got, want): out.append(("C06:variable", "%s variable %d: %r, stored %r" % (where, v + 1, got, want)))
                hi, lo = mu.getVariableDataMax(v + 1, name, s + 1), mu.getVariableDataMin(v + 1, name, s + 1)
                if hi is None or hi != want.max(): out.append(("C06:variable maximum", "%s variable %d: %r, stored %r" % (where, v + 1, hi, want)))
                if lo is None or lo != want.min(): out.append(("C06:variable minimum", "%s variable %d: %r, stored %r" % (where, v + 1, lo, want)))
            for fn, nm in ((mu.getSensorAcrossTrackIndex, "across_track_index"), (mu.getSensorAlongTrackIndex, "along_track_index"), (mu.getSensorTime, "time")):
                arr = getattr(mu, nm + str(pos + 1))
                want = None if arr is None else arr[a:z]
                got = fn(s + 1, name)
                if not eq(got, want): out.append(("C06:" + nm, "%s: %r, stored %r" % (where, got, want)))
        for other in L.sensors:
            if other in d["name"]: continue
            for fn in (mu.getSensorAcrossTrackIndex, mu.getSensorAlongTrackIndex, mu.getSensorTime, lambda n, q: mu.getVariableData(1, q, n)):
                try: got = fn(s + 1, other)
                except Exception: continue
                out.append(("C06:foreign sensor", "series %d has sensors %r, %s answered with %r" % (s + 1, d["name"], other, got)))
    if mu.additional_values is not None:
        names = mu.idx["additional_values_name"]
        if list(mu.getAdditionalDataNames()) != names: out.append(("C06:additional names", "%r" % (mu.getAdditionalDataNames(),)))
        for c, nm in enumerate(names):
            for s in [None] + list(range(1, len(F.f) + 1)):
                want = mu.additional_values[:, c] if s is None else mu.additional_values[L.cNm[s - 1]:L.cNm[s], c]
                got = mu.getAdditionalData(nm, s)
                if not eq(got, want): out.append(("C06:additional", "%s series %r: %r, stored %r" % (nm, s, got, want)))
                if not np.isnan(want).any():
                    if mu.getAdditionalDataMax(nm, s) != want.max() or mu.getAdditionalDataMin(nm, s) != want.min(): out.append(("C06:additional extremes", "%s series %r" % (nm, s)))
    if gen.diff_snapshot(before, gen.snapshot(mu)): out.append(("C06:modified", "queries modified %r" % gen.diff_snapshot(before, gen.snapshot(mu))))
    return out
