import os, shutil, sys, tempfile
import numpy as np
from runtime import gen, rd, boot
RULE = "one case = random match-up files whose sensor data are given as a file (same file name in several directories), or set on the opened data, once or several times; every sensor's models, constants and labelled parameters compared, and the sensor data registered with the package"


def cases(rng, tier):
    for z in range(70 if tier == "quick" else 700):
        p = gen.payload(rng, forms=(1,))
        p["kind"], p["sd"] = ("set", "file", "registry")[z % 9 % 3 if z % 9 != 5 else 0], [rng.randrange(10 ** 6) for _ in range(3)]
        yield p


TEMPLATE = '''"""Sensor data"""
def model(tag):
    def f(X, a, c, *aux): return tag
    f.tag = tag
    return f
SENSOR_DATA = {%s}
'''


def tables(p, seed):
    """Plain description of sensor data: name -> parameters, constants, model tag, adjustment tag or None."""
    r = np.random.RandomState(seed)
    names = list(p["names"])
    names += [n for n in ("n08", "S3B") if r.rand() < 0.5 and n not in names]
    r.shuffle(names)
    numbers = lambda n: [float(x) if r.rand() < 0.7 else float(r.choice([0, 0, 1, -1])) for x in gen.f32(r.uniform(-9, 9, n))]
    return {n: {"par": numbers(r.randint(0, 4)), "con": numbers(r.randint(0, 3)),
                "model": "model %s %d" % (n, seed), "adj": "adjustment %s %d" % (n, seed) if r.rand() < 0.5 else None} for n in names}


class Tagged(object):
    def __init__(self, tag): self.tag = tag
    def __call__(self, *a): return self.tag


def as_dict(t):
    out = {}
    for n, d in t.items():
        out[n] = {"sensor_model": Tagged(d["model"]), "sensor_model_parameter": list(d["par"]), "sensor_model_constant": list(d["con"]), "sensor_model_variables_num": 1}
        if d["adj"]: out[n]["sensor_adjustment_model"] = Tagged(d["adj"])
    return out


def as_text(t):
    return TEMPLATE % ", ".join("%r: {'sensor_model': model(%r), 'sensor_model_parameter': %r, 'sensor_model_constant': %r%s}" % (n, d["model"], d["par"], d["con"],
                                ", 'sensor_adjustment_model': model(%r)" % d["adj"] if d["adj"] else "") for n, d in t.items())


def compare(tag, mu, L, t, out):
    labels, clabels = list(mu.idx["parameter_sensor"]), list(mu.idx["sensor_model_constant_sensor"])
    a, con = np.asarray(mu.a, dtype=float), [float(x) for x in mu.sensor_model_constant]
    if len(a) != len(labels) or len(con) != len(clabels): return out.append(("C29:labels", "%s%d parameters, labels %r; %d constants, labels %r" % (tag, len(a), labels, len(con), clabels)))
    if not set(labels) | set(clabels) <= set(L.sensors): out.append(("C29:labels", "%slabels %r of sensors outside the match-up" % (tag, labels)))
    if len(mu.sensor_model) != len(L.sensors) or len(mu.adjustment_model) != len(L.sensors): return out.append(("C29:models", "%s%d models for %d sensors" % (tag, len(mu.sensor_model), len(L.sensors))))
    for i, n in enumerate(mu.idx["sensors"]):
        d = t[n]
        got = [x for x, s in zip(a, labels) if s == n]
        if not np.array_equal(np.asarray(got), np.asarray(d["par"])): out.append(("C29:parameters", "%s%s starts at %r, sensor data have %r" % (tag, n, got, d["par"])))
        got = [x for x, s in zip(con, clabels) if s == n]
        if got != d["con"]: out.append(("C29:constants", "%s%s has constants %r, sensor data have %r" % (tag, n, got, d["con"])))
        if getattr(mu.sensor_model[i], "tag", None) != d["model"]: out.append(("C29:model", "%s%s has model %r" % (tag, n, getattr(mu.sensor_model[i], "tag", None))))
        if d["adj"]:
            if getattr(mu.adjustment_model[i], "tag", None) != d["adj"]: out.append(("C29:adjustment model", "%s%s has adjustment model %r" % (tag, n, mu.adjustment_model[i])))
        else:
            R = np.array([3.5, -1.0, 7.25])
            B, J = mu.adjustment_model[i](R)
            if not (np.array_equal(np.asarray(B, dtype=float), R) and np.array_equal(np.asarray(J, dtype=float), np.ones(3))): out.append(("C29:adjustment model", "%s%s: default adjustment of %r is %r, derivative %r" % (tag, n, R, B, J)))
    for k in ("parameter_sensor", "sensor_model_constant_sensor"):
        if list(mu._original_idx.get(k, [None])) != list(mu.idx[k]): out.append(("C29:original index", "%s%s is %r in the original index, %r in the index" % (tag, k, mu._original_idx.get(k), mu.idx[k])))
    for k in ("Nm", "cNm", "idx", "N_var", "n_sensor", "n_mu", "n_cov"):
        if list(mu.idx[k]) != list(mu._original_idx[k]): out.append(("C29:index", "%s%s changed to %r from %r" % (tag, k, mu.idx[k], mu._original_idx[k])))
    if list(mu.idx["sensors"]) != L.sensors or list(mu.idx["cNm"]) != L.cNm: out.append(("C29:index", "%ssensors %r" % (tag, mu.idx["sensors"])))


def check(p):
    out = []
    if p["kind"] == "registry": return registry()
    if p["kind"] == "set":
        mu, F, L = rd.opened(p, open_uncertainty=False, open_additional_values=False)
        for k, s in enumerate(p["sd"]):
            t = tables(p, s)
            D = as_dict(t)
            mu.setSensorData(D)
            compare("set %d: " % (k + 1), mu, L, t, out)
            if list(D) != list(t) or any(D[n]["sensor_model_parameter"] != t[n]["par"] or D[n]["sensor_model_constant"] != t[n]["con"] for n in t): out.append(("C29:sensor data modified", "the sensor data given were changed"))
        return out
    d = tempfile.mkdtemp(dir=boot.TREE)
    keep_path, keep_mod = list(sys.path), set(sys.modules)
    try:
        for k, s in enumerate(p["sd"]):
            t = tables(p, s)
            sub = os.path.join(d, "d%d" % k); os.mkdir(sub)
            path = os.path.join(sub, ("sensors", "sensors", "others")[k] + ".py")
            with open(path, "w") as f: f.write(as_text(t))
        for k in (0, 1, 2, 0):
            t = tables(p, p["sd"][k])
            mu, F, L = rd.opened(p, path_sensor_data=os.path.join(d, "d%d" % k, ("sensors", "sensors", "others")[k] + ".py"), open_uncertainty=False, open_additional_values=False)
            compare("file %d: " % k, mu, L, t, out)
    finally:
        sys.path[:] = keep_path
        for m in set(sys.modules) - keep_mod: sys.modules.pop(m, None)
        shutil.rmtree(d, ignore_errors=True)
    return out


def registry():
    try: from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory
    except ImportError as e: raise boot.HarnessError(str(e))
    f = SensorDataFactory()
    out = []
    names = list(f.get_names())
    if len(set(names)) != len(names) or not names: out.append(("C29:registry", "names %r" % names))
    for nm in names:
        if f.sensors_data[nm].name != nm: out.append(("C29:registry", "%s registered as %s" % (f.sensors_data[nm].name, nm)))
        D, E = f.get_sensor_data(nm), f.sensors_data[nm].get_sensor_data()
        if list(D) != list(E) or any(list(D[s]["sensor_model_parameter"]) != list(E[s]["sensor_model_parameter"]) for s in D): out.append(("C29:registry", "%s: data of another set" % nm))
        for s, d in D.items():
            if not callable(d["sensor_model"]): out.append(("C29:registry", "%s %s: no model" % (nm, s)))
    return out
