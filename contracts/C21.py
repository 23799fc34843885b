"""Brightness temperature <-> radiance: each conversion undoes the other, and radiance rises with temperature.

Pre: any instrument and channel of the real coefficient table; arrays of one to three dimensions with symbolic extents and any
contents (the statement is made for an arbitrary element that is a positive number), or a scalar.  The conversions are composed
as the code computes them; no particular formula is demanded."""
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = ["exp and log are inverse to each other; exp(u) > 1 for u > 0; exp increasing (lemma axioms)", "numpy element-wise operations, selection and assignment by mask (pyvc/npmodel.py)",
           "isnan/isfinite: a value computed from finite numbers is finite (no overflow), missing elements are missing"]
ASSUMPTIONS = ["real arithmetic: temperatures so low that exp overflows, and rounding, are outside"]
INSTR = ["m02", "n19", "n18", "n17", "n16", "n15", "n14", "n12", "n11", "n10", "n09", "n08", "n07", "n06", "tn", "aatsr", "atsr1", "atsr2"]


def harnesses(tree, tier):
    P = N.program(tree)
    M.complete(P)
    mod = P.load_path("tools/convert_bt_to_radiance.py")
    fs = ["convertBT.return_band_coefs", "convertBT.temp2rad", "convertBT.rad2temp"]
    return [Harness("%s channel %d" % (i, ch), make(mod, i, ch), fs, timeout=60) for i in INSTR for ch in (1, 2, 3)]


def nan(v):
    """Is the value missing?"""
    if v is T.NAN: return T.TRUE
    if v.op == "ite": return T.ite(v.args[0], nan(v.args[1]), nan(v.args[2]))
    if v.op == "app": return T.app("isnan", [v], "B")
    return T.FALSE


def axioms(c):
    exp, log = [lambda u, f=f: T.fn(f, u) for f in ("exp", "log")]
    c.fact("isnan", lambda a, t: T.TRUE if a[0].op == "app" else T.eq(t, nan(a[0])))
    c.fact("exp", lambda a, t: T.and_(T.eq(log(t), a[0]), T.implies(T.lt(T.real(0), a[0]), T.lt(T.real(1), t))))
    c.fact("log", lambda a, t: T.implies(T.lt(T.real(0), a[0]), T.eq(exp(t), a[0])))


def make(mod, instr, ch):
    def h(c):
        b = ctx.call(mod.convertBT, instr)
        axioms(c)
        if b.nuc[ch - 1] < 0:
            for nm, g in (("temperature", b.temp2rad), ("radiance", b.rad2temp)):
                try: g(T.sym("x"), ch)
                except T.Unsupported: raise
                except Exception: refused = True
                else: refused = False
                c.oblige("no answer for a channel the instrument does not have (%s)" % nm, lift(refused))
            return
        t = T.sym("t")
        pos = [T.lt(T.real(0), t)]
        r = lift(ctx.call(b.temp2rad, t, ch))
        c.oblige("scalar: radiance positive", T.lt(T.real(0), r), pos)
        back = lift(ctx.call(b.rad2temp, r, ch))
        c.oblige("scalar: temperature to radiance and back", T.eq(back, t), pos)
        c.oblige("scalar: radiance to temperature and back", T.eq(lift(ctx.call(b.temp2rad, back, ch)), r), pos + [T.eq(back, t)])
        increasing(c, b, ch)
        for nd in (1, 2, 3):
            n = [T.sym("n%d" % q, "I") for q in range(nd)]
            c.assume(*[T.le(T.const(1), x) for x in n])
            A = SArr.of(tuple(n), lambda *i: T.app("t", [lift(x) for x in i]))
            A0 = M.freeze(A)
            R = ctx.call(b.temp2rad, A, ch)
            R0 = M.freeze(R)
            B = ctx.call(b.rad2temp, R, ch)
            C = ctx.call(b.temp2rad, B, ch)
            w = "array of %d dimension(s): " % nd
            for nm, x in (("radiances", R), ("temperatures", B)): c.oblige(w + "one of the %s per element" % nm, T.and_(lift(x.ndim == nd), *[T.eq(lift(p), q) for p, q in zip(x.shape, n)]))
            i, hi = zip(*[M.generic(c, "i%d" % q, n[q]) for q in range(nd)])
            e = T.app("t", list(i))
            hi = [x for y in hi for x in y] + [T.lt(T.real(0), e), T.not_(T.app("isnan", [e], "B"))]
            c.oblige(w + "every element as a scalar", T.eq(lift(R.at(*i)), T.subst(r, {t: e})), hi)
            c.oblige(w + "temperature to radiance and back", T.eq(lift(B.at(*i)), e), hi)
            c.oblige(w + "radiance to temperature and back", T.eq(lift(C.at(*i)), lift(R.at(*i))), hi + [T.eq(lift(B.at(*i)), e)])
            c.oblige(w + "inputs unmodified", T.and_(M.same(A, A0), M.same(R, R0)))
    return h


def increasing(c, b, ch):
    """exp increasing: instances for the pairs of exponentials that occur."""
    x, y = T.sym("colder"), T.sym("warmer")
    r, s = [lift(ctx.call(b.temp2rad, v, ch)) for v in (x, y)]
    es = [u for q in (r, s) for u in T.subterms(q) if u.op == "fn" and u.args[0] == "exp"]
    hyp = [T.lt(T.real(0), x), T.lt(x, y)] + [T.implies(T.lt(u.args[1], v.args[1]), T.lt(u, v)) for u in es for v in es if u is not v]
    c.oblige("scalar: radiance increases strictly with temperature", T.lt(r, s), hyp)
