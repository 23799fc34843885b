from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M
from contracts.mu_common import TRUSTED as _T

TRUSTED = _T + ["lemma: the inner product over the concatenated state is the sum of the inner products over its blocks",
                "lemma: with y.(Ax) = (A'y).x for all x, y and Hx = A'(Ax), x2.(Hx) = (Ax2).(Ax) is symmetric and non-negative on the diagonal"]
FN = ["GN_algo.GNAlgo.calc_prod_JPx", "GN_algo.GNAlgo.get_JPx", "GN_algo.GNAlgo.get_JPTx", "GN_algo.GNAlgo.calc_R", "GN_algo.GNAlgo.unconvert_Xs", "GN_algo.GNAlgo.calc_Px"]


def harnesses(tree, tier):
    P = M.program(tree)
    GN = P.load(M.GP + "harmonisation_eiv.GN_algo").GNAlgo
    out = [Harness("calc_Px: preconditioner and its transpose", pre(P, GN, M.structures(tier)[1]), ["GN_algo.GNAlgo.calc_Px"]),
           Harness("calc_Hx is transpose product of forward product", normal(P, GN, M.structures(tier)[1]), ["GN_algo.GNAlgo.calc_Hx"], ["GNAlgo.calc_prod_JPx"])]
    for st in M.structures(tier):
        out.append(Harness("adjoint: " + st[0], adjoint(P, GN, st), FN, ["sensor model", "adjustment model"], structure="pairing graph: " + st[0], timeout=600))
    return out


def solver(P, GN, c, st):
    Y = M.build(P, c, st, normalised=True)
    G = GN(Y.mu)
    G.xyza = SArr.of((Y.Nvar + Y.na,), lambda k: T.app("z", [k]))
    G.S = SArr.of((Y.na, Y.na), lambda i, j: T.app("S", [i, j]))
    return Y, G


def regions(c, Y, side):
    """The blocks of a state (side 'x') or residual (side 'y') vector: (name, offset, length)."""
    r = [("block %d" % b, Y.off_t[b], Y.N_t[b]) for b in range(len(Y.blocks))]
    r += [("systematic %d" % k, lift(Y.off_t[-1]) + k, 1) for k in range(Y.ns)]
    if side == "x": r += [("parameter %d" % k, Y.Nvar + k, 1) for k in range(Y.na)]
    else: r += [("series %d" % s, Y.Nvar + lift(Y.cNm[s]), Y.Nm[s]) for s in range(len(Y.Nm))]
    return r


def inner(c, regs, f, g):
    """Sum over all blocks of f(i) g(i), each entry resolved to its block."""
    tot = T.real(0)
    for k, (nm, off, n) in enumerate(regs):
        if isinstance(n, int) and n == 1: tot = tot + c.prover.simp(c.pc, f(lift(off))) * g(lift(off))
        else:
            t = T.fresh("e", "I")
            h = c.pc + [T.le(T.const(0), t), T.lt(t, lift(n))]
            tot = tot + T.sum_(t, 0, n, c.prover.simp(h, f(lift(off) + t)) * g(lift(off) + t))
    return tot


def adjoint(P, GN, st):
    def h(c):
        Y, G = solver(P, GN, c, st)
        before = M.snapshot(Y.mu)
        x = SArr.of((Y.Nvar + Y.na,), lambda k: T.app("x", [k]))
        y = SArr.of((Y.Nvar + Y.Nmu,), lambda k: T.app("y", [k]))
        was = [SArr.of(v.shape, v.frozen()) for v in (x, y, G.xyza, G.S)]
        A = ctx.call(G.get_JPx, x)
        B = ctx.call(G.get_JPTx, y)
        c.oblige("forward product: one entry per residual", T.and_(lift(A.ndim == 1), T.eq(lift(A.shape[0]), Y.Nvar + Y.Nmu)))
        c.oblige("transposed product: one entry per unknown", T.and_(lift(B.ndim == 1), T.eq(lift(B.shape[0]), Y.Nvar + Y.na)))
        l = inner(c, regions(c, Y, "y"), lambda i: A.at(i), lambda i: T.app("y", [i]))
        r = inner(c, regions(c, Y, "x"), lambda i: B.at(i), lambda i: T.app("x", [i]))
        c.oblige("y.(JPx) = (JP)'y.x", T.eq(l, r))
        c.oblige("vectors, state and preconditioner unmodified", M.same([x, y, G.xyza, G.S], was))
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(Y.mu, before)), lift(not M.unchanged(Y.mu, before)))
        # linearity: the entries are linear in the vector
        for nm, out, vec, regs in (("forward", A, "x", regions(c, Y, "y")), ("transposed", B, "y", regions(c, Y, "x"))):
            for rn, off, n in regs:
                t, ht = M.generic(c, "t", n) if not (isinstance(n, int) and n == 1) else (T.const(0), [])
                e = c.prover.simp(c.pc + ht, out.at(lift(off) + t))
                c.oblige("%s product is linear: %s" % (nm, rn), linear(e, vec), ht)
    return h


def linear(e, vec):
    """Is the entry linear in the vector?  e(2 u - 3 w) = 2 e(u) - 3 e(w), with the vector as uninterpreted entries."""
    sub = lambda f: T.subst(e, {a: f(a.args[1]) for a in T.subterms(e) if a.op == "app" and a.args[0] == vec})
    u, w = (lambda k: T.app("u_", [k])), (lambda k: T.app("w_", [k]))
    return T.eq(sub(lambda k: 2 * u(k) - 3 * w(k)), 2 * sub(u) - 3 * sub(w))


def pre(P, GN, st):
    def h(c):
        Y, G = solver(P, GN, c, st)
        x = SArr.of((Y.Nvar + Y.na,), lambda k: T.app("x", [k]))
        for tr in (False, True):
            p = ctx.call(G.calc_Px, x, transpose=tr)
            nm = "transpose" if tr else "product"
            c.oblige(nm + ": length kept", T.and_(lift(p.ndim == 1), T.eq(lift(p.shape[0]), Y.Nvar + Y.na)))
            i, hi = M.generic(c, "i", Y.Nvar)
            c.oblige(nm + ": variables unchanged", T.eq(p.at(i), T.app("x", [i])), hi)
            for k in range(Y.na):
                want = sum((T.app("S", [T.const(j), T.const(k)] if tr else [T.const(k), T.const(j)]) * T.app("x", [Y.Nvar + j]) for j in range(Y.na)), T.real(0))
                c.oblige(nm + ": parameter %d" % k, T.eq(p.at(Y.Nvar + k), want))
    return h


def normal(P, GN, st):
    def h(c):
        Y, G0 = solver(P, GN, c, st)

        class G_(GN):
            def calc_prod_JPx(self, x, transpose=False):
                f = x.frozen()
                n = Y.Nvar + Y.na if transpose else Y.Nvar + Y.Nmu
                c.oblige("callee precondition: vector of the right length", T.eq(lift(x.shape[0]), Y.Nvar + Y.Nmu if transpose else Y.Nvar + Y.na))
                k = T.fresh("s", "I")
                tag = T.sum_(k, 0, x.shape[0], T.app("hash", [k]) * f(k))      # names the argument vector
                return SArr.of((n,), lambda i: T.app("Tr" if transpose else "Fw", [i, tag]))
        G = G_(Y.mu)
        G.xyza, G.S = G0.xyza, G0.S
        x = SArr.of((Y.Nvar + Y.na,), lambda k: T.app("x", [k]))
        H = ctx.call(G.calc_Hx, x)
        want = G.calc_prod_JPx(G.calc_prod_JPx(x), transpose=True)
        i, hi = M.generic(c, "i", Y.Nvar + Y.na)
        c.oblige("length", T.eq(lift(H.shape[0]), Y.Nvar + Y.na))
        c.oblige("Hx = (JP)'(JP x)", T.eq(H.at(i), want.at(i)), hi)
    return h
