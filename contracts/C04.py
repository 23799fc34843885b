"""Weighting matrices and uncertainty vectors survive packing into a file and reopening.

Pre: any number (at least one) of CSR matrices with the same number of rows and at least one entry each, any number of
non-empty uncertainty vectors.  No bound on the number of matrices or vectors, nor on their sizes.
"""
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.instrument import SymSeq
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = N.TRUSTED
TOOLS = ["W_matrix_functions", "pmh2fiduceo"]


def harnesses(tree, tier):
    P = N.program(tree)
    R = P.load(N.IO + "MatchUpReader")
    out = []
    for t in TOOLS + ["AVHRR_to_updated_spec"]:
        try: m = P.load_path("tools/%s.py" % t)
        except Exception as e: m = e
        if t in TOOLS:
            out.append(Harness("packing: " + t, packing(P, m), [t + ".return_w_matrix_variables"]))
        out.append(Harness("round trip: " + t, trip(P, R, m, t in TOOLS and m or P.load_path("tools/W_matrix_functions.py")),
                           [t + ".append_W_to_input_file", "MatchUpReader._open_w_matrix", "MatchUpReader._open_u_matrix"] + ([t + ".return_w_matrix_variables"] if t in TOOLS else [])))
    return out


class Lists(object):
    """Symbolic lists of matrices and vectors."""

    def __init__(self, c):
        self.nw, self.nu, self.R = T.sym("nw", "I"), T.sym("nu", "I"), T.sym("R", "I")
        c.assume(T.le(T.const(1), self.nw), T.le(T.const(1), self.nu), T.le(T.const(2), self.R))
        for f in ("nnz", "cnt"): c.fact(f, lambda a, t: T.le(T.const(1), t))
        self.nnz = lambda k: T.app("nnz", [lift(k)], "I")
        self.cnt = lambda k: T.app("cnt", [lift(k)], "I")
        self.w = SymSeq(self.nw, self.matrix)
        self.u = SymSeq(self.nu, self.vector)

    def matrix(self, k):
        k = lift(k)
        return N.Csr((SArr.of((self.nnz(k),), lambda i: T.app("wval", [k, i])), SArr.of((self.nnz(k),), lambda i: T.app("wcol", [k, i], "I")),
                      SArr.of((self.R,), lambda i: T.app("wrow", [k, i], "I"))), shape=(self.R - 1, T.app("wcols", [k], "I")))

    def vector(self, k):
        k = lift(k)
        return SArr.of((self.cnt(k),), lambda i: T.app("uval", [k, i]))


def total(f, n):
    k = T.fresh("s", "I")
    return T.sum_(k, 0, n, f(k))


def packing(P, m):
    def h(c):
        if isinstance(m, Exception): raise T.Unsupported("module does not load: %s" % m)
        L = Lists(c)
        val, row, col, nnz, cnt, uval = ctx.call(m.return_w_matrix_variables, L.w, L.u)
        k, hk = M.generic(c, "k", L.nw)
        q, hq = M.generic(c, "q", L.nu)
        i, hi = M.generic(c, "i", L.nnz(k))
        j, hj = M.generic(c, "j", L.cnt(q))
        r, hr = M.generic(c, "r", L.R)
        one = lambda nm, a, n: c.oblige(nm + ": length", T.and_(lift(a.ndim == 1), T.eq(lift(a.shape[0]), n)))
        one("number of non-zeros", nnz, L.nw)
        one("number of uncertainties", cnt, L.nu)
        one("values", val, total(L.nnz, L.nw))
        one("columns", col, total(L.nnz, L.nw))
        one("uncertainties", uval, total(L.cnt, L.nu))
        c.oblige("row pointers: shape", T.and_(lift(row.ndim == 2), T.eq(lift(row.shape[0]), L.nw), T.eq(lift(row.shape[1]), L.R)))
        c.oblige("number of non-zeros of matrix k", T.eq(nnz.at(k), L.nnz(k)), hk)
        c.oblige("number of uncertainties of vector q", T.eq(cnt.at(q), L.cnt(q)), hq)
        c.oblige("row pointers of matrix k", T.eq(row.at(k, r), T.app("wrow", [k, r], "I")), hk + hr)
        c.oblige("values of matrix k after those of the matrices before it", T.eq(val.at(total(L.nnz, k) + i), T.app("wval", [k, i])), hk + hi)
        c.oblige("columns of matrix k after those of the matrices before it", T.eq(col.at(total(L.nnz, k) + i), T.app("wcol", [k, i], "I")), hk + hi)
        c.oblige("uncertainties of vector q after those of the vectors before it", T.eq(uval.at(total(L.cnt, q) + j), T.app("uval", [q, j])), hq + hj)
    return h


def trip(P, R, m, packer):
    def h(c):
        for x in (m, packer):
            if isinstance(x, Exception): raise T.Unsupported("module does not load: %s" % x)
        P.fs.__init__()
        L = Lists(c)
        packed = ctx.call(packer.return_w_matrix_variables, L.w, L.u)
        m1, m2 = T.sym("m1", "I"), T.sym("m2", "I")
        c.assume(T.le(T.const(1), m1), T.le(T.const(1), m2))
        d = P.fs.Dataset("f", "w")
        d.createDimension("M", L.R - 1); d.createDimension("m1", m1); d.createDimension("m2", m2)
        d.close()
        use = [N.sym_array(nm, (n,), "I") for nm, n in (("wu1", m1), ("wu2", m2), ("uu1", m1), ("uu2", m2))]
        val, row, col, nnz, cnt, uval = packed
        ctx.call(m.append_W_to_input_file, "f", val, row, col, nnz, cnt, uval, *use)
        c.oblige("the file is closed", lift(d._state == "closed"))
        for nm, n in (("w_matrix_count", L.nw), ("w_matrix_row_count", L.R), ("w_matrix_nnz_sum", total(L.nnz, L.nw)), ("u_matrix_count", L.nu), ("u_matrix_row_count_sum", total(L.cnt, L.nu))):
            c.oblige("dimension " + nm, T.eq(lift(d.dimensions[nm].size), n) if nm in d.dimensions else T.FALSE)
        d = P.fs.Dataset("f")
        for nm, want, n in (("w_matrix_use1", "wu1", m1), ("w_matrix_use2", "wu2", m2), ("u_matrix_use1", "uu1", m1), ("u_matrix_use2", "uu2", m2)):
            i, hi = M.generic(c, "i", n)
            c.oblige(nm, T.eq(d.variables[nm].arr.at(i), T.app(want, [i], "I")) if nm in d.variables else T.FALSE, hi)
        rd = R.MatchUpReader()
        k, q = T.sym("k", "I"), T.sym("q", "I")
        c.assume(T.le(T.const(0), k), T.lt(k, L.nw), T.le(T.const(0), q), T.lt(q, L.nu))
        w = ctx.call(rd._open_w_matrix, d, k + 1)
        same_matrix(c, w, L, k)
        u = ctx.call(rd._open_u_matrix, d, q + 1)
        arr(c, "uncertainty vector", u, L.cnt(q), lambda i: T.app("uval", [q, i]))
    return h


def arr(c, name, got, n, at):
    if not isinstance(got, SArr) or got.ndim != 1:
        c.oblige(name, T.FALSE)
        return
    i, hi = M.generic(c, "i", n)
    c.oblige(name + " (length)", T.eq(lift(got.shape[0]), lift(n)))
    c.oblige(name, T.eq(got.at(i), at(i)), hi)


def same_matrix(c, w, L, k):
    if not isinstance(w, N.Csr):
        c.oblige("matrix", T.FALSE)
        return
    arr(c, "matrix values", w.data, L.nnz(k), lambda i: T.app("wval", [k, i]))
    arr(c, "matrix columns", w.indices, L.nnz(k), lambda i: T.app("wcol", [k, i], "I"))
    arr(c, "matrix row pointers", w.indptr, L.R, lambda i: T.app("wrow", [k, i], "I"))
    c.oblige("matrix rows", T.eq(lift(w.shape[0]), L.R - 1))
    from pyvc import npmodel
    c.oblige("matrix columns up to the last one used", T.eq(lift(w.shape[1]), lift(npmodel._extreme("max", SArr.of((L.nnz(k),), lambda i: T.app("wcol", [k, i], "I")))) + 1))
