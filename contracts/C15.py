from pyvc import loader, terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from specs import sensors as S
from contracts.sensor_common import *

EXP = lambda u: T.fn("exp", u)
COS = lambda u: T.fn("cos", u)
NPIX = 90


def harnesses(tree, tier):
    P = loader.Program(tree)
    fac = P.load("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory()
    out, seen = [], set()
    for s, d in fac.get_sensor_data("MW____Ch03_3").items():
        m = d["sensor_model"]
        key = (m, d["sensor_model_variables_num"], len(d["sensor_model_parameter"]), len(d["sensor_model_constant"]))
        if key in seen: continue
        seen.add(key)
        if key[2] == 0: out.append(Harness("reference", ref_harness(m, ""), ["MW_sensor_models." + m.__name__]))
        else:
            for first in (True, False):
                out.append(Harness("MW %d constants, %s" % (key[3], "measurand" if first else "derivatives"), make(*key, first),
                                   ["MW_sensor_models." + m.__name__]))
    return out


def make(model, nv, np_, nc, first):
    def h(c):
        c.oblige("sensor data supply nine variables and three parameters", T.lift((nv, np_) == (9, 3)))
        import math
        n = T.sym("n", "I")
        i = T.sym("i", "I")
        c.assume(n >= 0, i >= 0, i < n)
        X = SArr.of((n, 9), lambda i, k: T.app("X", [i, k]))
        a = SArr.of((3,), lambda k: T.app("a", [k]))
        k = SArr.of((nc,), lambda j: T.app("c", [j]))
        ac = SArr.of((n,), lambda i: T.app("across", [i], "I"))
        c.fact("across", lambda args, t: T.and_(t >= 0, t < nc - 9))
        f0, g0 = X.store.fn, a.store.fn
        _, al, tm = tracks(n)
        res = ctx.call(model, X, a, k, ac, al, tm)
        cs = [k.at(nc - 9 + j) for j in range(9)]
        args = lambda x, p: (EXP, COS, math.pi, x, p, cs, k.at(ac.at(i)), T.toreal(ac.at(i)))
        spec = lambda x, p: S.mw(*args(x, p))
        known = {q: (lambda x, p, q=q: S.mw_known_columns(*args(x, p))[q]) for q in (0, 1, 2, 3, 4, 5, 6, 7, 9, 11)}
        if first:
            check_result(c, res, n, X, a, i, spec, 9, 3, "", cols=[8])
        else:
            x = [X.at(i, q) for q in range(9)]
            p = [a.at(q) for q in range(3)]
            s = T.lift(spec(x, p))
            for q in range(12):
                got = T.toreal(res[1].at(i, q))
                if q in known and poly.valid_eq(got, T.toreal(T.lift(known[q](x, p)))):
                    c.obligations.append(ctx.Obligation("%s:derivative column %d is the pinned wrong expression" % (c.name, q), "known", "ring",
                                                        {"counterexample": "column equals the pinned wrong expression; see known_findings.json"}, 0, None))
                    continue
                col_check(c, "derivative column %d" % q, got, T.diff(s, T.lift(x[q] if q < 9 else p[q - 9])))
        c.oblige("inputs unmodified", T.lift(X.store.fn is f0 and a.store.fn is g0))
    return h
