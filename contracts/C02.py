"""Opened data sit at the block of their own series, sensor and variable.  Pre: match-up files of the documented format."""
from pyvc import terms as T, ctx
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = N.TRUSTED + ["datetime.fromtimestamp as an uninterpreted function of whole seconds (the zone of the process: UTC)"]
OPT = ["across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2"]


def structures(tier):
    """name, pairs (sensor names), variables per sensor, optional index variables per file, additional variables per file"""
    S = [
        ("reference, one file, all optional", [("r", "a")], {"r": 1, "a": 3}, [OPT], [["nominal_BT1", "lat"]]),
        ("chain, optional in some files", [("r", "a"), ("a", "b"), ("b", "r")], {"r": 1, "a": 2, "b": 3}, [[OPT[0]], [OPT[0], OPT[3]], []], [["lat"], [], ["lat", "nominal_BT2"]]),
        ("same pair twice, swapped", [("a", "b"), ("b", "a"), ("a", "b")], {"a": 2, "b": 1}, [[OPT[2]], [OPT[3]], [OPT[1], OPT[2]]], [["x"], ["y"], ["x", "y"]]),
        ("no optional variables", [("a", "b"), ("c", "a")], {"a": 1, "b": 4, "c": 2}, [[], []], [[], []]),
        ("sensor first and second", [("b", "a"), ("a", "c"), ("b", "c"), ("c", "b")], {"a": 3, "b": 1, "c": 2}, [OPT[:2], OPT[2:], OPT, []], [["p"], ["p"], ["q"], []]),
    ]
    if tier == "thorough":
        for k in (2, 3):
            for z, g in enumerate(N.graphs(k, 4)):
                ns = N.n_sensors(g)
                for m in range(2):
                    S.append(("graph %s %d" % (g, m), [("s%d" % i, "s%d" % j) for i, j in g], {"s%d" % q: 1 + (q + m + z) % 3 for q in range(ns)},
                              [[OPT[t] for t in range(4) if (z + q + t) % 3 == 0] for q in range(k)], [["p", "q"][: (z + q) % 3] for q in range(k)]))
    return S


def harnesses(tree, tier):
    P = N.program(tree)
    R = P.load(N.IO + "MatchUpReader")
    fns = ["MatchUpReader.openMatchUp", "MatchUpReader.open_values_from_nc_datasets", "MatchUpReader.open_ks_from_nc_datasets", "MatchUpReader.open_time_from_nc_datasets",
           "MatchUpReader._seconds2date", "MatchUpReader.open_optional_index_from_nc_datasets", "MatchUpReader.open_additional_values_from_nc_datasets",
           "MatchUpReader.get_idx_additional_values_name_from_nc_datasets", "MatchUpReader.get_block_idxs"]
    return [Harness("opened data: " + st[0], make(P, R, st), fns, structure="files: " + st[0] + "; match-up counts and contents symbolic") for st in structures(tier)]


def make(P, R, st):
    name, pairs, ms, opt, add = st

    def h(c):
        P.fs.__init__()
        fs = [N.make_file(c, P.fs, "f%d" % s, s, pr, [ms[x] for x in pr], [[1] * ms[x] for x in pr], opt=opt[s], add=add[s]) for s, pr in enumerate(pairs)]
        mu = ctx.call(R.MatchUpReader().openMatchUp, ["f%d" % s for s in range(len(pairs))], open_uncertainty=False)
        check(c, mu, fs)
    return h


def check(c, mu, fs, tag=""):
    L = N.Layout(fs)
    c.oblige(tag + "one value per block element", T.eq(lift(mu.values.shape[0]), lift(L.idx[-1])))
    for b, (v, s, pos) in enumerate(L.blocks):
        q = N.block_of(mu.idx, L, b)
        c.oblige(tag + "block of series %d position %d variable %d exists once" % (s, pos, v), lift(len(q) == 1))
        if len(q) != 1: continue
        i, hi = M.generic(c, "i", fs[s].M)
        c.oblige(tag + "values of series %d position %d variable %d" % (s, pos, v), T.eq(mu.values.at(lift(mu.idx["idx"][q[0]]) + i), fs[s].v["X%d" % (pos + 1)].at(i, T.const(v))), hi)
        c.oblige(tag + "length of series %d position %d variable %d" % (s, pos, v), T.eq(lift(mu.idx["idx"][q[0] + 1]) - lift(mu.idx["idx"][q[0]]), fs[s].M))
    tot = L.cNm[-1]
    c.oblige(tag + "number of adjustment factors", T.eq(lift(mu.ks.shape[0]), tot))
    for nm in ("time1", "time2"): c.oblige(tag + "number of " + nm, T.eq(lift(getattr(mu, nm).shape[0]), tot))
    for s, f in enumerate(fs):
        i, hi = M.generic(c, "i", f.M)
        at = lift(L.cNm[s]) + i
        c.oblige(tag + "adjustment factors of series %d" % s, T.eq(mu.ks.at(at), f.v["K"].at(i)), hi)
        for nm in ("time1", "time2"):
            c.oblige(tag + "%s of series %d" % (nm, s), T.eq(getattr(mu, nm).at(at), T.app("fromtimestamp", [T.app("trunc", [f.v[nm].at(i)], "I")])), hi)
        for nm in OPT:
            a = getattr(mu, nm)
            if not any(nm in g.opt for g in fs):
                c.oblige(tag + nm + " absent", lift(a is None))
                continue
            if a is None:
                c.oblige(tag + nm + " present", T.FALSE)
                continue
            if s == 0: c.oblige(tag + "number of " + nm, T.eq(lift(a.shape[0]), tot))
            c.oblige(tag + "%s of series %d" % (nm, s), T.eq(a.at(at), T.toreal(f.v[nm].at(i)) if nm in f.opt else T.NAN), hi)
    names = sorted(set(x for f in fs for x in f.add))
    have = list(mu.idx.get("additional_values_name") or [])
    c.oblige(tag + "additional variables named once each", lift(sorted(have) == names))
    A = mu.additional_values
    c.oblige(tag + "additional values shape", T.and_(lift(A.ndim == 2), T.eq(lift(A.shape[0]), tot), T.eq(lift(A.shape[1]), lift(len(names)))))
    for j, nm in enumerate(have):
        for s, f in enumerate(fs):
            i, hi = M.generic(c, "i", f.M)
            if nm in f.add:
                w = f.v[nm].at(i)
                w = T.ite(T.eq(w, lift(-1e30)), T.NAN, w)
            else: w = T.NAN
            c.oblige(tag + "additional %s of series %d" % (nm, s), T.eq(A.at(lift(L.cNm[s]) + i, T.const(j)), w), hi)
