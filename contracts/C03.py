"""Opened uncertainties keep each block's own form, data and shared systematic."""
import itertools
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = N.TRUSTED


def structures(tier):
    """name, pairs, variables per sensor, correlation labels per file and position, (w numbers, u numbers) per file or None"""
    S = [
        ("every form, one file", [("r", "a")], {"r": 1, "a": 4}, [([1], [1, 2, 3, 4])], [(([0], [0, 0, 1, 2]), ([0], [0, 0, 2, 1]))]),
        ("shared systematic errors over a chain", [("r", "a"), ("a", "b"), ("b", "a")], {"r": 1, "a": 2, "b": 2},
         [([1], [1, 2]), ([1, 2], [2, 2]), ([2, 2], [1, 2])], [None, None, None]),
        ("matrices shared between variables and positions", [("a", "b"), ("b", "a")], {"a": 3, "b": 2},
         [([4, 3, 4], [3, 1]), ([3, 1], [4, 3, 4])], [(([2, 1, 2], [1, 0]), ([1, 2, 3], [3, 0])), (([1, 0], [1, 1, 2]), ([2, 0], [1, 1, 1]))]),
        ("weighted in one file, random in the next", [("r", "a"), ("r", "b"), ("a", "b")], {"r": 1, "a": 3, "b": 2},
         [([1], [3, 1, 4]), ([1], [1, 2]), ([1, 2, 1], [4, 2])], [(([0], [1, 0, 1]), ([0], [1, 0, 1])), None, (([0, 0, 0], [1, 0]), ([0, 0, 0], [1, 0]))]),
        ("all systematic", [("a", "b"), ("c", "a"), ("b", "c")], {"a": 2, "b": 3, "c": 1},
         [([2, 2], [2, 4, 2]), ([2], [2, 2]), ([2, 4, 2], [2])], [(([0, 0], [0, 1, 0]), ([0, 0], [0, 1, 0])), None, (([0, 1, 0], [0]), ([0, 1, 0], [0]))]),
        ("unused matrices in the file", [("r", "a")], {"r": 1, "a": 2}, [([1], [3, 3])], [(([0], [3, 1]), ([0], [4, 2]))]),
    ]
    if tier == "thorough":
        for z, (fa, fb) in enumerate(itertools.product(itertools.product((1, 2, 3, 4), repeat=2), repeat=2)):
            def use(fm, base): return [(base + k + 1) if f in (3, 4) else 0 for k, f in enumerate(fm)]
            def both(x, y):
                if not any(f in (3, 4) for f in x + y): return None
                return ((use(x, 0), use(y, z % 2)), (use(x, z % 3), use(y, 0)))
            S.append(("forms %s %s" % (fa, fb), [("a", "b"), ("b", "c"), ("c", "a")], {"a": 2, "b": 2, "c": 1},
                      [(list(fa), list(fb)), (list(fb), [fa[0]]), ([fb[1]], list(fa))], [both(list(fa), list(fb)), both(list(fb), [fa[0]]), both([fb[1]], list(fa))]))
    return S


def harnesses(tree, tier):
    P = N.program(tree)
    R = P.load(N.IO + "MatchUpReader")
    fns = ["MatchUpReader.open_unc_from_nc_datasets", "MatchUpReader.open_matrix_idxs_from_nc_datasets", "MatchUpReader._open_w_matrix", "MatchUpReader._open_u_matrix",
           "MatchUpReader.open_unck_from_nc_datasets", "Uncertainty.__init__"]
    return [Harness("opened uncertainties: " + st[0], make(P, R, st), fns, structure="files: " + st[0] + "; match-up counts, matrix sizes and contents symbolic") for st in structures(tier)]


def make(P, R, st):
    name, pairs, ms, forms, use = st

    def h(c):
        P.fs.__init__()
        fs = []
        for s, pr in enumerate(pairs):
            u = use[s]
            nw = max(sum(u[0], [])) if u else 0
            nu = max(sum(u[1], [])) if u else 0
            fs.append(N.make_file(c, P.fs, "f%d" % s, s, pr, [ms[x] for x in pr], forms[s], use=u, nw=nw, nu=nu))
        mu = ctx.call(R.MatchUpReader().openMatchUp, ["f%d" % s for s in range(len(pairs))], open_additional_values=False)
        check(c, mu, fs)
    return h


def arr_eq(c, name, got, n, at, dims=1):
    """Obligation: the array `got` has length n and element i is at(i)."""
    if not isinstance(got, SArr) or got.ndim != 1:
        c.oblige(name, T.FALSE)
        return
    i, hi = M.generic(c, "i", n)
    c.oblige(name + " (length)", T.eq(lift(got.shape[0]), lift(n)))
    c.oblige(name, T.eq(got.at(i), at(i)), hi)


def check_matrix(c, tag, w, f, k):
    """w is the k-th (0..) weighting matrix of file f."""
    if not isinstance(w, N.Csr):
        c.oblige(tag, T.FALSE)
        return
    n, off = f.nnz[k], f.woff[k]
    arr_eq(c, tag + " values", w.data, n, lambda i: f.v["w_matrix_val"].at(off + i))
    arr_eq(c, tag + " columns", w.indices, n, lambda i: f.v["w_matrix_col"].at(off + i))
    arr_eq(c, tag + " row pointers", w.indptr, f.R, lambda i: f.v["w_matrix_row"].at(T.const(k), i))
    c.oblige(tag + " rows", T.eq(lift(w.shape[0]), lift(f.R) - 1))
    from pyvc import npmodel
    cols = npmodel._extreme("max", SArr.of((n,), lambda i: f.v["w_matrix_col"].at(off + i)))
    c.oblige(tag + " columns up to the last one used", T.eq(lift(w.shape[1]), lift(cols) + 1))


def check(c, mu, fs, tag=""):
    L = N.Layout(fs)
    c.oblige(tag + "one uncertainty per block", lift(len(mu.unc) == len(L.blocks)))
    sysn = []
    for b, (v, s, pos) in enumerate(L.blocks):
        q = N.block_of(mu.idx, L, b)
        if len(q) != 1:
            c.oblige(tag + "block exists", T.FALSE)
            continue
        un, f = mu.unc[q[0]], fs[s]
        t = f.types[pos][v]
        where = tag + "series %d position %d variable %d (form %d): " % (s, pos, v, t)
        if not hasattr(un, "typeID"):
            c.oblige(where + "opened", T.FALSE)
            continue
        c.oblige(where + "form", lift(int(un.typeID) == t))
        if int(un.typeID) != t: continue
        P = str(pos + 1)
        if t in (1, 2): arr_eq(c, where + "random uncertainties", un.uR, f.M, lambda i: f.v["Ur" + P].at(i, T.const(v)))
        if t == 2: arr_eq(c, where + "systematic uncertainties", un.uS, f.M, lambda i: f.v["Us" + P].at(i, T.const(v)))
        if t == 4: c.oblige(where + "systematic uncertainty", T.eq(lift(un.uS), f.v["Us" + P].at(T.const(0), T.const(v))))
        if t in (2, 4):
            key = (L.n_sensor[b], v)
            if key not in sysn: sysn.append(key)
            c.oblige(where + "systematic error number", T.eq(lift(getattr(un, "uS_i", -1) or -1), lift(sysn.index(key) + 1)))
        if t in (3, 4):
            wi, ui = un.w_i, un.u_i
            if not (0 <= wi < len(mu.w_matrices) and 0 <= ui < len(mu.u_matrices)):
                c.oblige(where + "matrix numbers", T.FALSE)
                continue
            check_matrix(c, where + "weighting matrix", mu.w_matrices[wi], f, f.use[0][pos][v] - 1)
            k = f.use[1][pos][v] - 1
            arr_eq(c, where + "uncertainty vector", mu.u_matrices[ui], f.cnt[k], lambda i: f.v["u_matrix_val"].at(f.uoff[k] + i))
    c.oblige(tag + "one adjustment-factor uncertainty per series", lift(len(mu.unck) == len(fs)))
    for s, (un, f) in enumerate(zip(mu.unck, fs)):
        c.oblige(tag + "form of adjustment-factor uncertainty %d" % s, lift(int(un.typeID) == 1))
        r = lambda i: f.v["Kr"].at(i) * f.v["Kr"].at(i) + f.v["Ks"].at(i) * f.v["Ks"].at(i)
        arr_eq(c, tag + "adjustment-factor uncertainty of series %d" % s, un.uR, f.M, lambda i: T.fn("sqrt", r(i)))
