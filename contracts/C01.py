"""Opened blocks partition the value array.  Pre: match-up files of the documented format.  Post: index structure of Layout."""
import itertools
from pyvc import terms as T, ctx
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = N.TRUSTED
NAMES = ["m02", "n19", "n18", "aatsr", "n9"]


def cases(tier):
    """(pairing graph, variables per sensor)"""
    out = []
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for g in N.graphs(k, 4 if k < 4 else 3):
            ns = N.n_sensors(g)
            allm = list(itertools.product((1, 2, 3), repeat=ns))
            pick = allm if k <= 2 or tier == "thorough" and k == 3 else [m for z, m in enumerate(allm) if z % (7 if k == 3 else 9) == len(out) % 7]
            for m in pick: out.append((g, m))
    return out


def harnesses(tree, tier):
    P = N.program(tree)
    R = P.load(N.IO + "MatchUpReader")
    cs = cases(tier)
    size = 24
    hs = []
    fns = ["MatchUpReader.openMatchUp", "MatchUpReader.get_idx_from_nc_datasets", "MatchUpReader.get_idx_Nm_from_nc_datasets", "MatchUpReader.get_idx_cNm_from_nc_datasets",
           "MatchUpReader.get_idx_sensors_from_nc_datasets", "MatchUpReader.get_idx_Im_from_nc_datasets", "MatchUpReader.get_idx_n_sensor_from_nc_datasets",
           "MatchUpReader.get_idx_n_mu_from_nc_datasets", "MatchUpReader.get_idx_n_cov_from_nc_datasets", "MatchUpReader.get_idx_N_var_from_nc_datasets", "MatchUpReader.get_idx_idxs_from_nc_datasets"]
    for z in range(0, len(cs), size):
        part = cs[z:z + size]
        hs.append(Harness("index structure %d..%d" % (z, z + len(part) - 1), make(P, R, part), fns,
                          structure="all pairing graphs of up to 3 series (4 thorough), 1-3 variables per sensor; match-up counts symbolic"))
    for how in ("one file", "list of files", "directory", "list of directories"):
        hs.append(Harness("files given as " + how, paths(P, R, how), ["MatchUpReader.open_nc_datasets", "MatchUpReader.openMatchUp"], structure="3 files, all listing orders; match-up counts symbolic"))
    return hs


def make(P, R, part):
    def h(c):
        for z, (g, m) in enumerate(part):
            P.fs.__init__()
            fs = [N.make_file(c, P.fs, "f%d" % s, s, (NAMES[i], NAMES[j]), (m[i], m[j]), ([1] * m[i], [1] * m[j])) for s, (i, j) in enumerate(g)]
            mu = ctx.call(R.MatchUpReader().openMatchUp, ["f%d" % s for s in range(len(g))], open_uncertainty=False, open_additional_values=False)
            check(c, mu, fs, "pairs %s variables %s: " % (g, m))
    return h


def check(c, mu, fs, tag):
    L = N.Layout(fs)
    for k in ("Nm", "cNm", "sensors", "Im", "n_sensor", "n_mu", "n_cov", "N_var", "idx"):
        want = {"sensors": L.sensors, "idx": L.idx}.get(k) or getattr(L, k)
        got = mu.idx.get(k)
        c.oblige(tag + k, M.same(plain(got), plain(want)))
    c.oblige(tag + "sensor_ms", M.same(plain(mu.idx.get("sensor_ms")), L.ms))
    c.oblige(tag + "number of values", T.eq(lift(mu.values.shape[0]), lift(L.idx[-1])))
    # each (series, sensor, variable) owns exactly one block
    c.oblige(tag + "one block each", lift(all(len(N.block_of(mu.idx, L, b)) == 1 for b in range(len(L.blocks))) and len(mu.idx["n_mu"]) == len(L.blocks)))


def plain(x):
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    return x


def paths(P, R, how):
    def h(c):
        names = {"d1": ["b.nc", "a.nc", "notes.txt"], "d2": ["c.nc"]} if how == "list of directories" else {"d1": ["b.nc", "a.nc", "c.nc", "x.ncx"]}
        orders = itertools.permutations(names["d1"]) if "director" in how else [names["d1"]]
        for order in orders:
            P.fs.__init__()
            fs, q = {}, 0
            for d in sorted(names):
                for nm in names[d]:
                    p = d + "/" + nm
                    fs[p] = N.make_file(c, P.fs, p, q, (NAMES[q % 3], NAMES[q % 3 + 1]), (1 + q % 3, 1 + (q + 1) % 3), ([1] * (1 + q % 3), [1] * (1 + (q + 1) % 3)))
                    q += 1
            P.fs.dirs = {d: list(v) for d, v in names.items()}
            P.fs.dirs["d1"] = list(order)
            if how == "one file": arg, want = "d1/a.nc", ["d1/a.nc"]
            elif how == "list of files": arg, want = ["d1/c.nc", "d1/a.nc", "d1/b.nc"], ["d1/c.nc", "d1/a.nc", "d1/b.nc"]
            elif how == "directory": arg, want = "d1", ["d1/a.nc", "d1/b.nc", "d1/c.nc"]
            else: arg, want = ["d2", "d1"], ["d2/c.nc", "d1/a.nc", "d1/b.nc"]
            # a sensor keeps its number of variables
            ms = {}
            mu = ctx.call(R.MatchUpReader().openMatchUp, arg, open_uncertainty=False, open_additional_values=False)
            c.oblige("files in order, listing %s" % (order,), lift([p for p, mode in P.fs.opened] == want))
            check(c, mu, [fs[p] for p in want], "listing %s: " % (order,))
            c.oblige("files closed, listing %s" % (order,), lift(all(P.fs.files[p]._state == "closed" for p in want)))
    return h
