from pyvc import loader, terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from specs import sensors as S
from contracts.sensor_common import *


def harnesses(tree, tier):
    P = loader.Program(tree)
    fac = P.load("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory()
    out, seen = [], {}
    for name in S.AVHRR:
        kind, scaled = S.AVHRR[name]
        nvar, npar = S.KIND[kind]
        data = fac.get_sensor_data(name)
        groups = {}
        for s, d in data.items():
            groups.setdefault((d["sensor_model"], d["sensor_model_variables_num"], len(d["sensor_model_parameter"]),
                               len(d["sensor_model_variable_names"]), len(d["sensor_model_constant"])), []).append(s)
        for (model, nv, np_, nn, nc), sensors in groups.items():
            ref = np_ == 0 and nv == 1
            h = make_ref(model, name, sensors) if ref else make(model, name, sensors, kind, scaled, nv, np_, nn, nvar, npar)
            out.append(Harness("%s[%s]" % (name, ",".join(sensors)), h, ["AVHRR_sensor_models." + getattr(model, "__name__", "?")]))
    return out


def make_ref(model, name, sensors):
    return ref_harness(model, "")


def make(model, name, sensors, kind, scaled, nv, np_, nn, nvar, npar):
    def h(c):
        c.oblige("sensor data supply the model's variables", T.lift(nv == nvar and nn == nvar))
        c.oblige("sensor data supply the model's parameters", T.lift(np_ == npar))
        n, X, a, i = row_inputs(c, nvar, npar)
        f0, g0 = X.store.fn, a.store.fn
        ac, al, tm = tracks(n)
        res = ctx.call(model, X, a, SArr.of((0,), lambda k: T.real(0)), ac, al, tm)
        check_result(c, res, n, X, a, i, lambda x, p: S.avhrr(kind, scaled, x, p), nvar, npar, "")
        c.oblige("inputs unmodified", T.lift(X.store.fn is f0 and a.store.fn is g0))
    return h
