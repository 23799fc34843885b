import math
import numpy as np
from specs import sensors as S
from runtime.sensor_rt import *

RULE = "one case = one microwave instrument, 1..5 random match-ups with random pixels, antenna factors, weights and band corrections"
_fac = []


def factory():
    if not _fac:
        from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory
        _fac.append(SensorDataFactory())
    return _fac[0]


def cases(rng, tier):
    for r in range(12 if tier == "quick" else 300):
        for s in range(7):
            yield {"s": s, "seed": rng.randrange(10 ** 9), "n": 1 + rng.randrange(5), "random_constants": r % 2 == 1}


def check(p):
    rng = np.random.RandomState(p["seed"] % (2 ** 31))
    key = "C15"
    try:
        data = factory().get_sensor_data("MW____Ch03_3")
        sensor = list(data)[p["s"] % len(data)]
        d = data[sensor]
        model, par = d["sensor_model"], d["sensor_model_parameter"]
    except Exception as e:
        return [("C15:sensor data", "%s: %s" % (type(e).__name__, e))]
    fails, n = [], p["n"]
    tr = [rng.randint(0, 90, n), rng.randint(0, 9999, n).astype(float), rng.uniform(1e9, 2e9, n)]
    if len(par) == 0:
        x = rng.uniform(200, 300, (n, 1))
        b = x.copy()
        try: R, J = model(x, np.array([]), np.array([]), *tr)
        except Exception as e: return [(key + ":reference raises", "%s: %s" % (type(e).__name__, e))]
        if J is not None: fails.append((key + ":reference derivatives", "reference model returned derivatives"))
        if getattr(R, "shape", None) != (n,) or not np.array_equal(R, b[:, 0]): fails.append((key + ":reference measurand", "%r for %r" % (R, b)))
        return fails
    c = np.array(d["sensor_model_constant"], dtype=float)
    if p["random_constants"]:
        c[:len(c) - 9] = rng.uniform(0.95, 1.0, len(c) - 9)
        c[-9:-4] = rng.uniform(0.2, 2, 5)
        c[-3:] = [rng.uniform(-0.02, 0.02), rng.uniform(0.99, 1.01), rng.uniform(-0.2, 0.2)]
    if len(par) != 3 or d["sensor_model_variables_num"] != 9: fails.append((key + ":sensor data", "parameter / variable count of %s" % sensor))
    cs = rng.uniform(9000, 12000, n)
    x = np.column_stack([cs, cs + rng.uniform(20000, 40000, n)] + [rng.uniform(278, 290, n) for _ in range(5)] + [cs + rng.uniform(1000, 39000, n), rng.uniform(300, 340, n)])
    a = np.array([rng.uniform(-1, 1) * 1e13, rng.uniform(-0.01, 0.01), rng.uniform(0.1, 1)])
    if p["seed"] % 3 == 0: a[0] = rng.uniform(-20, 20)
    bx, ba = x.copy(), a.copy()
    try: R, J = model(x, a, c, *tr)
    except Exception as e: return fails + [(key + ":raises", "%s: %s" % (type(e).__name__, e))]
    g = [c[:len(c) - 9][q] for q in tr[0]]
    args = lambda i, z: (np.exp, np.cos, math.pi, z[:9], z[9:], c[-9:], g[i], float(tr[0][i]))
    compare(key, lambda i, z: S.mw(*args(i, z)), bx, ba, R, J, fails, rtol=1e-6, known=lambda i, z: S.mw_known_columns(*args(i, z)))
    unmodified(key, [bx, ba], [x, a], fails)
    return fails
