import inspect
import numpy as np
from specs import sensors as S
from runtime.sensor_rt import *

RULE = "one case = one AVHRR channel sensor data set, one sensor of it, 1..6 random match-ups with realistic and extreme counts; non-trivial: harmonised (non-reference) sensor"
_fac = []


def factory():
    if not _fac:
        from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory
        _fac.append(SensorDataFactory())
    return _fac[0]


def cases(rng, tier):
    first = True
    rounds = 3 if tier == "quick" else 60
    for r in range(rounds):
        for name in S.AVHRR:
            for s in (factory().get_sensor_data(name) if r == 0 else [None]):
                yield {"name": name, "sensor": s, "seed": rng.randrange(10 ** 9), "n": 1 + rng.randrange(6)}


def nontrivial(p): return True


def check(p):
    rng = np.random.RandomState(p["seed"] % (2 ** 31))
    name = p["name"]
    kind, scaled = S.AVHRR[name]
    nvar, npar = S.KIND[kind]
    try:
        data = factory().get_sensor_data(name)
        sensor = p["sensor"] if p["sensor"] in data else list(data)[-1 - p["seed"] % 3]
        d = data[sensor]
        model, par = d["sensor_model"], d["sensor_model_parameter"]
    except Exception as e:
        return [("C13:sensor data", "%s: %s" % (type(e).__name__, e))]
    fails = []
    key = "C13:" + name
    n = p["n"]
    ac, al, tm = rng.randint(0, 90, n).astype(float), rng.randint(0, 9999, n).astype(float), rng.uniform(1e9, 2e9, n)
    if len(par) == 0:
        x = rng.uniform(-5, 200, (n, 1))
        b = x.copy()
        try: R, J = model(x, np.array([]), np.array([]), ac, al, tm)
        except Exception as e: return [(key + ":reference raises", "%s: %s" % (type(e).__name__, e))]
        if J is not None: fails.append((key + ":reference derivatives", "reference model returned derivatives"))
        if getattr(R, "shape", None) != (n,) or not np.array_equal(R, b[:, 0]): fails.append((key + ":reference measurand", "%r for %r" % (R, b)))
        unmodified(key, [b], [x], fails)
        return fails
    if d["sensor_model_variables_num"] != nvar or len(d["sensor_model_variable_names"]) != nvar or len(d["sensor_model_variable_labels"]) != nvar:
        fails.append((key + ":sensor data variables", "%s supplies %s variables, model uses %d" % (sensor, d["sensor_model_variables_num"], nvar)))
    if len(par) != npar: fails.append((key + ":sensor data parameters", "%s supplies %d parameters, model uses %d" % (sensor, len(par), npar)))
    x = np.column_stack((rng.uniform(960, 1000, n), rng.uniform(300, 600, n), rng.uniform(100, 950, n), rng.uniform(5, 160, n)))
    if nvar == 5: x = np.column_stack((x, rng.uniform(270, 300, n)))
    k = 1000.0 if scaled else 1.0
    a = [rng.uniform(-5, 5), rng.uniform(-0.1, 0.1) * k]
    if kind in ("3", "4"): a.append(rng.uniform(-5e-5, 5e-5) * k * k)
    if kind in ("4", "37_3"): a.append(rng.uniform(-0.5, 0.5) * k)
    a = np.array(a)
    bx, ba = x.copy(), a.copy()
    try: R, J = model(x, a, np.array([]), ac, al, tm)
    except Exception as e: return fails + [(key + ":raises", "%s: %s" % (type(e).__name__, e))]
    compare(key, lambda i, z: S.avhrr(kind, scaled, z[:nvar], z[nvar:]), bx, ba, R, J, fails)
    unmodified(key, [bx, ba], [x, a], fails)
    return fails
