import importlib, os, random, sys
import numpy as np
from runtime import gen, boot, gn_rt
RULE = "one case = a random match-up (any mix of correlation forms, weighting matrices with overlapping windows) sampled with a random fraction; every sampled match-up is identified with an original one"
_m = {}


def module():
    if _m: return _m["S"]
    boot.inject()
    so = random.sample
    random.sample = lambda pop, k, **kw: so(list(pop), k, **kw)       # Python 2's sample accepts any sequence
    rel = "harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/"
    boot.compile_pyx(rel + "cython_lib_sample2ind.pyx", "cython_lib_sample2ind")
    sys.path.insert(0, os.path.join(boot.TREE, rel))
    import harmonisation as H
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    from harmonisation.core.matchup.matchupIO.Uncertainty import Uncertainty
    H.MatchUp, H.Uncertainty = MatchUp, Uncertainty
    _m["S"] = importlib.import_module("harmonisation.core.matchup.matchupProcessing.sample2ind.Sample2Ind").Sample2Ind
    return _m["S"]


def cases(rng, tier):
    forms = [(1, 2), (1, 2, 3, 4), (3, 4), (1, 3)]
    for z in range(160 if tier == "quick" else 2500):
        p = gen.payload(rng, forms=forms[z % 4], max_n=14, min_n=2)
        p["sf"] = rng.choice([1.0, 1.0, 0.5, 0.7, round(rng.random(), 3)])
        if z % 7 == 0: p["nmax"] = rng.randint(1, 20)
        yield p


def check(p):
    S = module()
    mu, L, F = gen.matchup(p)
    # recognisable contents: every match-up's row is unique
    mu.ks = np.arange(len(mu.ks)) * 1.0 + 0.5
    before = gen.snapshot(mu)
    random.seed(p["seed"])
    k = {"n_sample_max": p["nmax"]} if "nmax" in p else {}
    r = S().run(mu, sf=p["sf"], **k)
    sf = p["sf"]
    if "nmax" in p and L.cNm[-1] * sf > p["nmax"]: sf = p["nmax"] / float(L.cNm[-1])
    out = []
    ch = gen.diff_snapshot(before, gen.snapshot(mu))
    if ch: out.append(("C16:input modified", "%r" % ch))
    for q in ("Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov", "parameter_sensor"):
        if not gen.same(list(r.idx[q]), list(before["idx"][q])): out.append(("C16:index", "%s is %r" % (q, r.idx[q])))
    Nm = list(r.idx["Nm"])
    cN = [0] + list(np.cumsum(Nm))
    if list(r.idx["cNm"]) != cN or len(r.ks) != cN[-1] or len(Nm) != len(L.Nm): return out + [("C16:index", "Nm %r cNm %r for %d adjustment factors" % (Nm, r.idx["cNm"], len(r.ks)))]
    Nv = [Nm[s] for v, s, pos in L.blocks]
    ii = [0] + list(np.cumsum(Nv))
    if list(r.idx["N_var"]) != Nv or list(r.idx["idx"]) != ii or len(r.values) != ii[-1]: return out + [("C16:index", "N_var %r idx %r for %d values" % (r.idx["N_var"], r.idx["idx"], len(r.values)))]
    sel = []
    for s in range(len(Nm)):
        rows = np.asarray(r.ks[cN[s]:cN[s + 1]]) - 0.5
        if not all(L.cNm[s] <= x < L.cNm[s + 1] and x == int(x) for x in rows): return out + [("C16:foreign adjustment factors", "series %d: %r" % (s + 1, rows))]
        rows = [int(x) - L.cNm[s] for x in rows]
        sel.append(rows)
        if len(set(rows)) != len(rows): out.append(("C16:distinct", "series %d: %r" % (s + 1, rows)))
        if len(rows) > L.Nm[s] * sf + 1e-9: out.append(("C16:fraction", "series %d: %d of %d, fraction %g" % (s + 1, len(rows), L.Nm[s], sf)))
        weighted = any(mu.unc[b].typeID > 2 for b, (v, ss, pos) in enumerate(L.blocks) if ss == s)
        if not weighted and len(rows) != int(L.Nm[s] * sf): out.append(("C16:unweighted size", "series %d: %d of %d" % (s + 1, len(rows), L.Nm[s])))
        if weighted and int(L.Nm[s] * sf) > 0 and not rows: out.append(("C16:empty sample", "series %d" % (s + 1)))
        g = [L.cNm[s] + x for x in rows]
        for nm in ("time1", "time2", "across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2"):
            a, c = getattr(mu, nm), getattr(r, nm)
            if (a is None) != (c is None): out.append(("C16:" + nm, "presence")); continue
            if a is not None and (len(c) != cN[-1] or not gen.same(np.asarray(c[cN[s]:cN[s + 1]]), a[g])): out.append(("C16:" + nm, "series %d: %r, expected %r" % (s + 1, c[cN[s]:cN[s + 1]], a[g])))
        if not gen.same(np.asarray(r.unck[s].uR), mu.unck[s].uR[rows]): out.append(("C16:adjustment factor uncertainty", "series %d" % (s + 1)))
    for b, (v, s, pos) in enumerate(L.blocks):
        rows, u = sel[s], mu.unc[b]
        want = mu.values[L.idx[b]:L.idx[b + 1]][rows]
        if not gn_rt.close(r.values[ii[b]:ii[b + 1]], want, 1e-6): out.append(("C16:values", "block %d: %r, expected %r" % (b, r.values[ii[b]:ii[b + 1]], want)))
        n = r.unc[b]
        if n.typeID != 1 or len(n.uR) != len(rows): out.append(("C16:uncertainty form", "block %d: %d" % (b, n.typeID))); continue
        if u.typeID in (1, 2):
            if not gen.same(np.asarray(n.uR), np.asarray(u.uR)[rows]): out.append(("C16:uncertainty", "block %d" % b))
        else:
            w, uu = mu.w_matrices[u.w_i], np.asarray(mu.u_matrices[u.u_i], dtype=float)
            used = [set(w.indices[w.indptr[x]:w.indptr[x + 1]]) for x in rows]
            if sum(len(x) for x in used) != len(set().union(*used)): out.append(("C16:shared variable", "block %d: rows %r" % (b, rows)))
            for q, c in enumerate(used):
                if max(c) - min(c) + 1 == len(c):
                    e = np.sqrt(np.mean(uu[sorted(c)] ** 2))
                    if abs(n.uR[q] - e) > 1e-5 * e: out.append(("C16:weighted uncertainty", "block %d row %d: %r, expected %r" % (b, rows[q], n.uR[q], e)))
    return out
