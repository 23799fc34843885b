from pyvc import terms as T, ctx, npmodel
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M

TRUSTED = ["max() and min() of an array by their contract: a function of the array's contents, element by element in order", "time stamps are opaque numbers"]
FN = ["getVariableData", "getVariableDataMax", "getVariableDataMin", "getAdditionalData", "getAdditionalDataMax", "getAdditionalDataMin", "getAdditionalDataNames",
      "getSensorAlongTrackIndex", "getSensorAcrossTrackIndex", "getSensorTime"]


def harnesses(tree, tier):
    P = M.program(tree)
    out = []
    for st in M.structures(tier):
        out.append(Harness("accessors: " + st[0], make(P, st), ["MatchUp." + f for f in FN], structure="pairing graph: " + st[0]))
    return out


def make(P, st):
    def h(c):
        Y = M.build(P, c, st)
        mu = Y.mu
        names = ["alpha", "beta", "gamma"]
        mu.idx["additional_values_name"] = list(names)
        mu.additional_values = SArr.of((Y.Nmu, 3), lambda i, j: T.app("add", [i, j]))
        before = M.snapshot(mu)

        def same(nm, got, n, f):
            if got is None:
                c.oblige(nm + ": an answer", T.FALSE)
                return
            c.oblige(nm + ": as many elements as stored", T.and_(lift(got.ndim == 1), T.eq(lift(got.shape[0]), lift(n))))
            t, ht = M.generic(c, "t", n)
            c.oblige(nm + ": stored elements in order", T.eq(got.at(t), f(t)), ht)

        def ext(nm, lo, hi, n, f):
            A = SArr.of((n,), f)
            for w, x in (("max", hi), ("min", lo)):
                c.oblige("%s: %s of what the query returns" % (nm, w), lift(x is not None) if x is None else T.eq(lift(x), npmodel._extreme(w, A)))
        for b, (v, s, pos) in enumerate(Y.blocks):
            q, n = Y.sname[Y.q(b)], Y.Nm[s]
            nm = "variable %d of %s in series %d" % (v + 1, q, s + 1)
            f = (lambda o: lambda t: T.app("val", [lift(o) + t]))(Y.off_o[b])
            same(nm, ctx.call(mu.getVariableData, v + 1, q, s + 1), n, f)
            ext(nm, ctx.call(mu.getVariableDataMin, v + 1, q, s + 1), ctx.call(mu.getVariableDataMax, v + 1, q, s + 1), n, f)
        for s, n in enumerate(Y.Nm):
            for pos in (0, 1):
                q = Y.sname[Y.Im[s][pos]]
                for k, (fn, pre) in enumerate(((mu.getSensorTime, "time"), (mu.getSensorAcrossTrackIndex, "ac"), (mu.getSensorAlongTrackIndex, "al"))):
                    nm = "%s of %s in series %d" % (pre, q, s + 1)
                    got = ctx.call(fn, s + 1, q)
                    if not Y.opt[k]: c.oblige(nm + ": none stored", lift(got is None))
                    else: same(nm, got, n, (lambda p, o: lambda t: T.app(p, [lift(o) + t]))(pre + str(pos + 1), Y.cNm[s]))
            for q in Y.sname + ["nobody"]:
                if q in [Y.sname[x] for x in Y.Im[s]]: continue
                for w, fn in (("time", lambda: mu.getSensorTime(s + 1, q)), ("across", lambda: mu.getSensorAcrossTrackIndex(s + 1, q)), ("along", lambda: mu.getSensorAlongTrackIndex(s + 1, q)),
                              ("variable", lambda: mu.getVariableData(1, q, s + 1))):
                    try: ctx.call(fn)
                    except ctx.CodeError: ok = True
                    else: ok = False
                    c.oblige("%s of %s in series %d refused" % (w, q, s + 1), lift(ok))
        c.oblige("names of the additional variables", lift(list(ctx.call(mu.getAdditionalDataNames)) == names))
        for j, nm in enumerate(names):
            for s in [None] + list(range(len(Y.Nm))):
                o, n = (0, Y.Nmu) if s is None else (Y.cNm[s], Y.Nm[s])
                f = (lambda o: lambda t: T.app("add", [lift(o) + t, T.const(j)]))(o)
                w = "additional %s of series %s" % (nm, "all" if s is None else s + 1)
                arg = None if s is None else s + 1
                same(w, ctx.call(mu.getAdditionalData, nm, arg), n, f)
                ext(w, ctx.call(mu.getAdditionalDataMin, nm, arg), ctx.call(mu.getAdditionalDataMax, nm, arg), n, f)
        c.oblige("data unmodified: %s" % ",".join(M.unchanged(mu, before)), lift(not M.unchanged(mu, before)))
    return h
