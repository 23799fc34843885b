from pyvc import loader, terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from specs import sensors as S
from contracts.sensor_common import *

EXP = lambda u: T.fn("exp", u)


def harnesses(tree, tier):
    P = loader.Program(tree)
    fac = P.load("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory()
    out, seen = [], set()
    for ch in range(1, 20):
        data = fac.get_sensor_data("HIRS__Ch%02d_3" % ch)
        for s, d in data.items():
            m = d["sensor_model"]
            key = (m, d["sensor_model_variables_num"], len(d["sensor_model_parameter"]), len(d["sensor_model_constant"]))
            if key in seen: continue
            seen.add(key)
            if key[2] == 0: out.append(Harness("reference Ch%02d %s" % (ch, s), ref_harness(m, ""), ["HIRS_sensor_models." + m.__name__]))
            else: out.append(Harness("HIRS Ch%02d %s" % (ch, s), make(*key), ["HIRS_sensor_models." + m.__name__]))
    pl = P.load("harmonisation.sensor_data.HIRS.HIRS_sensor_models")
    if hasattr(pl, "planck"): out.append(Harness("Planck function", planck_h(pl.planck), ["HIRS_sensor_models.planck"]))
    return out


def make(model, nv, np_, nc):
    def h(c):
        c.oblige("sensor data supply five variables, three parameters, three constants", T.lift((nv, np_, nc) == (5, 3, 3)))
        n, X, a, i = row_inputs(c, 5, 3)
        k = SArr.of((3,), lambda j: T.app("c", [j]))
        cs = [k.at(j) for j in range(3)]
        f0, g0 = X.store.fn, a.store.fn
        res = ctx.call(model, X, a, k, *tracks(n))
        check_result(c, res, n, X, a, i, lambda x, p: S.hirs(EXP, x, p, cs), 5, 3, "")
        c.oblige("inputs unmodified", T.lift(X.store.fn is f0 and a.store.fn is g0))
    return h


def planck_h(planck):
    def h(c):
        v, T1, T2 = T.sym("v"), T.sym("T1"), T.sym("T2")
        c.assume(v > 0, T1 > 0, T2 > T1)
        p1, p2 = T.lift(ctx.call(planck, v, T1)), T.lift(ctx.call(planck, v, T2))
        c.oblige("Planck function formula", T.eq(p1, T.lift(S.planck(EXP, v, T1))))
        # with the formula established: c / (exp(u) - 1), u = k / T; monotonicity from the axioms of exp and 1/T
        k, u1, u2, e1, e2, q = [T.sym(s) for s in ("k", "u1", "u2", "e1", "e2", "q")]
        hyp = [k > 0, q > 0, T.eq(u1 * T1, k), T.eq(u2 * T2, k), T.implies(T.lt(u2, u1), T.lt(e2, e1)), T.implies(T.lt(T.real(0), u2), T.lt(T.real(1), e2))]
        pos = T.and_(T.lt(T.real(0), u2), T.lt(u2, u1))
        c.oblige("lemma: k/T is positive and decreasing", pos, hyp)
        c.oblige("Planck function positive and increasing",
                 T.and_(T.lt(T.real(0), T.div(q, e1 - 1)), T.lt(T.div(q, e1 - 1), T.div(q, e2 - 1))), hyp[:2] + hyp[4:] + [pos])
    return h


TRUSTED = ["exp is increasing and exp(u) > 1 for u > 0 (lemma axioms of the Planck monotonicity harness)"]
