import os
import numpy as np
from specs import sensors as S
from runtime.sensor_rt import *
from runtime import boot

RULE = "one case = one HIRS channel and sensor with its own coefficients, 1..6 random match-ups; every third case a reference sensor or the Planck function"
_fac = []


def factory():
    if not _fac:
        from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory
        _fac.append(SensorDataFactory())
    return _fac[0]


def coeffs(ch):
    p = os.path.join(boot.TREE, "harmonisation_eiv/harmonisation/sensor_data/HIRS/coeffs/coef_ch%d.dat" % ch)
    out = {}
    for line in open(p, encoding="utf-8").read().split("\n")[1:]:
        w = line.split()
        if len(w) > 3: out[w[0]] = [float(v) for v in w[1:4]]
    return out


def cases(rng, tier):
    for r in range(1 if tier == "quick" else 20):
        for ch in range(1, 20):
            for s in range(17):
                yield {"ch": ch, "s": s, "seed": rng.randrange(10 ** 9), "n": 1 + rng.randrange(6)}


def check(p):
    rng = np.random.RandomState(p["seed"] % (2 ** 31))
    key = "C14"
    try:
        data = factory().get_sensor_data("HIRS__Ch%02d_3" % p["ch"])
        sensor = list(data)[p["s"] % len(data)]
        d = data[sensor]
        model, par = d["sensor_model"], d["sensor_model_parameter"]
    except Exception as e:
        return [("C14:sensor data", "%s: %s" % (type(e).__name__, e))]
    fails, n = [], p["n"]
    tr = [rng.randint(0, 56, n).astype(float), rng.randint(0, 9999, n).astype(float), rng.uniform(1e9, 2e9, n)]
    if len(par) == 0:
        x = rng.uniform(-5, 200, (n, 1))
        b = x.copy()
        try: R, J = model(x, np.array([]), np.array([]), *tr)
        except Exception as e: return [(key + ":reference raises", "%s: %s" % (type(e).__name__, e))]
        if J is not None: fails.append((key + ":reference derivatives", "reference model returned derivatives"))
        if getattr(R, "shape", None) != (n,) or not np.array_equal(R, b[:, 0]): fails.append((key + ":reference measurand", "%r for %r" % (R, b)))
        return fails
    c = list(d["sensor_model_constant"])
    want = coeffs(p["ch"]).get(sensor)
    if want is not None and c != want: fails.append((key + ":sensor constants", "%s channel %d: %s, coefficient file %s" % (sensor, p["ch"], c, want)))
    if len(par) != 3 or d["sensor_model_variables_num"] != 5: fails.append((key + ":sensor data", "parameter / variable count of %s" % sensor))
    cr = rng.uniform(-2000, 3000, n)
    x = np.column_stack((cr, cr + rng.choice([-1, 1], n) * rng.uniform(500, 3000, n), rng.uniform(-3000, 3000, n), rng.uniform(270, 300, n), rng.uniform(-1, 1, n) * 1e-14))
    a = np.array([rng.uniform(-1, 1) * 1e-14, rng.uniform(-0.1, 0.1), rng.uniform(-1, 1) * 1e-20])
    bx, ba = x.copy(), a.copy()
    try: R, J = model(x, a, np.array(c), *tr)
    except Exception as e: return fails + [(key + ":raises", "%s: %s" % (type(e).__name__, e))]
    compare(key, lambda i, z: S.hirs(np.exp, z[:5], z[5:], c), bx, ba, R, J, fails)
    unmodified(key, [bx, ba], [x, a], fails)
    try:
        from harmonisation.sensor_data.HIRS import HIRS_sensor_models as M
        if hasattr(M, "planck"):
            T = np.sort(rng.uniform(50, 400, 20))
            v = c[0]
            L = M.planck(v, T)
            if not (np.all(L > 0) and np.all(np.diff(L) > 0) and np.allclose(L, S.planck(np.exp, v, T), rtol=1e-10)):
                fails.append((key + ":planck", "frequency %r temperatures %s: %s" % (v, T.tolist(), L)))
    except ImportError:
        pass
    return fails
