import numpy as np
from runtime import gen, boot
RULE = "one case = one instrument and channel with random positive temperatures, as array (1 to 3 dimensions, some elements missing) and as scalars"
INSTR = ["m02", "n19", "n18", "n17", "n16", "n15", "n14", "n12", "n11", "n10", "n09", "n08", "n07", "n06", "tn", "aatsr", "atsr1", "atsr2"]


def cases(rng, tier):
    for z in range(324 if tier == "quick" else 4000):
        yield {"i": z % 18, "ch": 1 + (z // 18) % 3, "seed": rng.randrange(10 ** 9), "shape": [rng.randint(1, 5) for _ in range(rng.randint(1, 3))]}


def check(p):
    from convert_bt_to_radiance import convertBT
    r = gen.rs(p, "bt")
    ins, ch = INSTR[p["i"]], p["ch"]
    c = convertBT(ins)
    if c.nuc[ch - 1] < 0:
        bad = []
        for g in (c.temp2rad, c.rad2temp):
            try: g(250.0, ch); bad.append(("C21:missing channel", "%s answered for a channel %s does not have" % (g.__name__, ins)))
            except Exception: pass
        return bad
    out = []
    T = np.concatenate([r.uniform(150, 350, 40), r.uniform(30, 3000, 40), np.exp(r.uniform(np.log(6), np.log(1e5), 40))])[:1 + r.randint(120)]
    def rt(a, b, what):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= 1e-6 * np.abs(b)): out.append(("C21:" + what, "%s channel %d: %r, expected %r" % (ins, ch, a, b)))
    R = c.temp2rad(T, ch)
    rt(c.rad2temp(R, ch), T, "temperature to radiance and back")
    rt(c.temp2rad(c.rad2temp(R, ch), ch), R, "radiance to temperature and back")
    rt(R, [c.temp2rad(float(t), ch) for t in T], "array equals scalars")
    rt([c.rad2temp(float(x), ch) for x in R], T, "scalar temperature to radiance and back")
    W = r.randint(180, 340, 1 + r.randint(9))
    rt(c.temp2rad(W, ch), c.temp2rad(W.astype(float), ch), "whole-number temperatures")
    rt(c.rad2temp(c.temp2rad(W, ch), ch), W, "whole-number temperatures and back")
    o = np.argsort(T); d = np.diff(T[o]) > 1e-6
    if not np.all(np.diff(R[o])[d] > 0): out.append(("C21:increasing", "%s channel %d" % (ins, ch)))
    if not np.all(R > 0): out.append(("C21:positive radiance", "%s channel %d" % (ins, ch)))
    A = r.uniform(180, 330, p["shape"]); k = A.copy()
    RA = c.temp2rad(A, ch)
    rt(c.rad2temp(RA, ch), A, "array of any shape")
    if not np.array_equal(A, k): out.append(("C21:input modified", ""))
    hole = r.rand(*A.shape) < 0.3
    B = A.copy(); B[hole] = np.nan
    x = c.rad2temp(c.temp2rad(B, ch), ch)
    if not (np.isnan(x) == hole).all() or not np.allclose(x[~hole], A[~hole], rtol=1e-6): out.append(("C21:missing elements", "%r" % x))
    return out
