from runtime import gen, rd
RULE = "one case = 1..4 random series over 2..5 sensors (1..4 variables each, 1..6 match-ups), written to files and opened"


def cases(rng, tier):
    for _ in range(160 if tier == "quick" else 1500): yield gen.payload(rng, forms=(1,))
    for _ in range(6 if tier == "quick" else 60): yield gen.payload(rng, forms=(1,), max_series=7, max_n=30, max_m=7)


def nontrivial(p): return len(p["series"]) > 1


def check(p):
    mu, F, L = rd.opened(p, gen.Files(p, additional=False), how=p["seed"] % 4 if p["seed"] % 4 < 3 else 0)
    idx, out = mu.idx, []
    want = L.as_idx()
    for k, v in want.items():
        got = idx.get(k)
        try: got = [[int(y) for y in x] if isinstance(x, (list, tuple)) else (str(x) if k == "sensors" else int(x)) for x in got]
        except Exception: pass
        if got != v: out.append(("C01:" + k, "index %r is %r, expected %r for pairs %r, variables %r" % (k, got, v, want["Im"], want["sensor_ms"])))
    if len(mu.values) != L.idx[-1]: out.append(("C01:length", "%d values for blocks of total length %d" % (len(mu.values), L.idx[-1])))
    return out
