"""Sensor data: every sensor of the match-up gets its own model, constants, adjustment model and labelled starting parameters.

`extract_sensor_data` is decided for symbolic parameter and constant values over enumerated shapes of the sensor data (order of the
sensors, sensors without match-ups, 0-3 parameters and 0-2 constants each); `setSensorData` and `openMatchUp` against it;
`open_sensor_data` over every short history of opened files, with a contract model of the import system."""
import itertools, types
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N

TRUSTED = N.TRUSTED + ["Python's import system: import_module(name) returns sys.modules[name] when present, otherwise the module of the first directory of sys.path that has it, and remembers it"]
ASSUMPTIONS = ["float32 storage of parameters treated as exact", "every sensor of the match-up is in the sensor data (otherwise a KeyError is raised)"]
ORDER = ["m02", "n19", "aatsr", "n9"]
FN = ["MatchUpReader.extract_sensor_data"]


def shapes(tier):
    """(sensors of the match-up, order of the sensor data, parameters, constants, own adjustment model)"""
    out = []
    for k in (1, 2, 3, 4):
        names = ORDER[:k]
        orders = list(itertools.permutations(names)) if k < 4 else [tuple(names), tuple(names[::-1]), tuple(names[2:] + names[:2])]
        for z, o in enumerate(orders):
            for y, extra in enumerate(((), ("n08",), ("n08", "m01"))):
                order = list(o)
                for e, q in enumerate(extra): order.insert((z + y + e) % (len(order) + 1), q)
                for x in range(2 if tier == "quick" else 6):
                    n = {s: (z + 2 * y + 3 * x + i) % 4 for i, s in enumerate(order)}
                    m = {s: (z + y + x + 2 * i) % 3 for i, s in enumerate(order)}
                    own = {s: (z + x + i) % 2 == 0 for i, s in enumerate(order)}
                    out.append((names, order, n, m, own))
    return out


def harnesses(tree, tier):
    P = N.program(tree)
    R = P.load(N.IO + "MatchUpReader")
    MU = P.load(N.IO + "MatchUp")
    out = []
    ss = shapes(tier)
    for z in range(0, len(ss), 12):
        out.append(Harness("sensor data of the match-up's sensors %d..%d" % (z, min(z + 11, len(ss) - 1)), extract(R, ss[z:z + 12]), FN, structure="up to 4 sensors in any order, up to 2 others"))
    out.append(Harness("default adjustment model", default(R), ["MatchUpReader._default_adjustment_model"]))
    out.append(Harness("set, and set again, on an opened match-up", reset(MU, [s for s in ss if len(s[0]) > 1][::5]), ["MatchUp.setSensorData"] + FN, structure="up to 4 sensors in any order, up to 2 others"))
    for how in ("sensor data given", "no sensor data"):
        out.append(Harness("opened with the match-up: " + how, opened(P, R, how), ["MatchUpReader.openMatchUp"] + FN, ["MatchUpReader.open_sensor_data"], structure="3 series, 3 sensors; match-up counts symbolic"))
    out.append(Harness("file of sensor data", files(R, tier), ["MatchUpReader.open_sensor_data"], structure="all histories of up to 3 openings of 4 files"))
    out.append(Harness("registered sensor data sets", registered(tree), ["SensorDataFactory.get_names", "SensorDataFactory.get_sensor_data"]))
    return out


class Fn(object):
    def __init__(self, nm): self.nm = nm
    def __deepcopy__(self, memo): return self


def build(shape, tag=""):
    names, order, n, m, own = shape
    D = {}
    for s in order:
        D[s] = {"sensor_model": Fn("model " + s + tag), "sensor_model_variables_num": 1,
                "sensor_model_parameter": [T.sym("p%s_%s_%d" % (tag, s, k)) for k in range(n[s])],
                "sensor_model_constant": [T.sym("c%s_%s_%d" % (tag, s, k)) for k in range(m[s])]}
        if own[s]: D[s]["sensor_adjustment_model"] = Fn("adjustment " + s + tag)
    return D


def copy2(D): return {s: {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()} for s, d in D.items()}


def same2(D, E): return list(D) == list(E) and all(set(D[s]) == set(E[s]) and all(same_list(D[s][k], E[s][k]) if isinstance(E[s][k], list) else D[s][k] is E[s][k] or D[s][k] == E[s][k] for k in E[s]) for s in E)


def same_list(x, y): return isinstance(x, list) and len(x) == len(y) and all(a is b for a, b in zip(x, y))


def fits(c, tag, a, const, model, adj, idx, names, D, standard):
    labels, clabels = list(idx["parameter_sensor"]), list(idx["sensor_model_constant_sensor"])
    const = list(const)
    c.oblige(tag + "one label per parameter", T.and_(lift(a.ndim == 1), T.eq(lift(a.shape[0]), T.const(len(labels)))))
    c.oblige(tag + "one label per constant", lift(len(const) == len(clabels)))
    c.oblige(tag + "labels are sensors of the match-up", lift(set(labels) <= set(names) and set(clabels) <= set(names)))
    c.oblige(tag + "one model and adjustment model per sensor", lift(len(model) == len(names) and len(adj) == len(names)))
    for i, s in enumerate(names):
        mine = [k for k, q in enumerate(labels) if q == s]
        want = D[s]["sensor_model_parameter"]
        c.oblige(tag + "%s: all its parameters" % s, lift(len(mine) == len(want)))
        for k, w in zip(mine, want): c.oblige(tag + "%s: its starting parameters in order" % s, T.eq(a.at(T.const(k)), w))
        mine = [const[k] for k, q in enumerate(clabels) if q == s]
        want = D[s]["sensor_model_constant"]
        c.oblige(tag + "%s: all its constants" % s, lift(len(mine) == len(want)))
        for x, w in zip(mine, want): c.oblige(tag + "%s: its constants in order" % s, T.eq(lift(x), w))
        c.oblige(tag + "%s: its model" % s, lift(model[i] is D[s]["sensor_model"]))
        if "sensor_adjustment_model" in D[s]: c.oblige(tag + "%s: its adjustment model" % s, lift(adj[i] is D[s]["sensor_adjustment_model"]))
        else: standard(c, tag + "%s: no adjustment" % s, adj[i])


def identity(c, tag, f):
    n = T.sym("n", "I")
    r = f(SArr.of((n,), lambda i: T.app("L", [lift(i)])))
    i, hi = M.generic(c, "i", n)
    c.oblige(tag + ": measurand and derivative", lift(isinstance(r, tuple) and len(r) == 2))
    c.oblige(tag + ": lengths", T.and_(T.eq(lift(r[0].shape[0]), n), T.eq(lift(r[1].shape[0]), n)))
    c.oblige(tag + ": measurand unchanged", T.eq(r[0].at(i), T.app("L", [i])), hi)
    c.oblige(tag + ": derivative one", T.eq(r[1].at(i), T.real(1)), hi)


def default(R):
    def h(c): identity(c, "default adjustment", R.MatchUpReader()._default_adjustment_model)
    return h


def index(names):
    n = T.sym("n0", "I")
    return {"sensors": list(names), "sensor_ms": [1] * len(names), "Nm": [n], "cNm": [0, n], "Im": [[0, len(names) - 1]], "n_mu": [1, 1], "n_cov": [1, 1], "n_sensor": [0, len(names) - 1], "N_var": [n, n], "idx": [0, n, n + n]}


def kept(c, tag, idx, names):
    want = index(names)
    for k in want: c.oblige(tag + "index entry %s stays" % k, M.same(idx.get(k), want[k]))


def extract(R, part):
    def h(c):
        c.assume(T.le(T.const(0), T.sym("n0", "I")))
        for names, order, n, m, own in part:
            tag = "%s of %s, %s parameters: " % (",".join(names), ",".join(order), [n[s] for s in order])
            D = build((names, order, n, m, own))
            E = copy2(D)
            a, const, model, adj, idx = ctx.call(R.MatchUpReader().extract_sensor_data, D, index(names))
            c.oblige(tag + "sensor data unmodified", lift(same2(D, E)))
            fits(c, tag, a, const, model, adj, idx, names, E, identity)
            kept(c, tag, idx, names)
    return h


def reset(MU, part):
    def h(c):
        c.assume(T.le(T.const(0), T.sym("n0", "I")))
        for names, order, n, m, own in part:
            mu = MU.MatchUp()
            mu.idx = index(names)
            mu._original_idx = index(names)
            for turn in (1, 2, 3):
                tag = "%s of %s, %s: " % (",".join(names), ",".join(order), ["", "set", "set again", "set back"][turn])
                D = build((names, order, {s: (n[s] + turn) % 4 for s in n}, m, own), "" if turn != 2 else "b")
                E = copy2(D)
                ctx.call(mu.setSensorData, D)
                c.oblige(tag + "sensor data unmodified", lift(same2(D, E)))
                c.oblige(tag + "sensor data kept", lift(same2(mu.sensor_data, E)))
                fits(c, tag, mu.a, mu.sensor_model_constant, mu.sensor_model, mu.adjustment_model, mu.idx, names, E, identity)
                kept(c, tag, mu.idx, names)
                kept(c, tag + "original ", mu._original_idx, names)
                for k in ("parameter_sensor", "sensor_model_constant_sensor"):
                    c.oblige(tag + "labels also in the original index: " + k, lift(list(mu._original_idx.get(k, [None])) == list(mu.idx[k])))
    return h


def opened(P, R, how):
    names = ["m02", "n19", "aatsr"]

    def h(c):
        P.fs.__init__()
        m = {"m02": 2, "n19": 3, "aatsr": 1}
        fs = [N.make_file(c, P.fs, "f%d" % s, s, (p, q), (m[p], m[q]), ([1] * m[p], [1] * m[q])) for s, (p, q) in enumerate((("aatsr", "m02"), ("m02", "n19"), ("aatsr", "n19")))]
        L = N.Layout(fs)
        D = build((names, ["n19", "n08", "aatsr", "m02"], {"n19": 2, "n08": 1, "aatsr": 0, "m02": 3}, {"n19": 0, "n08": 2, "aatsr": 1, "m02": 2}, {"n19": True, "n08": False, "aatsr": False, "m02": False}))
        E = copy2(D)
        asked = []

        class R_(R.MatchUpReader):
            def open_sensor_data(self, path):
                asked.append(path)
                return D
        mu = ctx.call(R_().openMatchUp, ["f0", "f1", "f2"], "some/sensors.py" if how == "sensor data given" else None, open_uncertainty=False, open_additional_values=False)
        if how == "no sensor data":
            c.oblige("no sensor data read", lift(not asked))
            c.oblige("index of the files", M.same(list(mu.idx["sensors"]), L.sensors))
            c.oblige("original index is the index", lift(mu._original_idx is not mu.idx and mu._original_idx["Im"] == mu.idx["Im"]))
            return
        c.oblige("sensor data of the given path", lift(asked == ["some/sensors.py"]))
        c.oblige("sensor data unmodified", lift(same2(D, E)))
        fits(c, "", mu.a, mu.sensor_model_constant, mu.sensor_model, mu.adjustment_model, mu.idx, L.sensors, E, identity)
        for k in ("parameter_sensor", "sensor_model_constant_sensor"):
            c.oblige("labels also in the original index: " + k, lift(list(mu._original_idx.get(k, [None])) == list(mu.idx[k])))
        c.oblige("the original index is a copy of its own", lift(all(mu._original_idx[k] is not mu.idx[k] for k in ("Nm", "cNm", "idx", "N_var"))))
    return h


class Sys(object):
    __pyvc_mutable__ = True

    def __init__(self): self.path, self.modules, self.version_info, self.maxsize = ["lib"], {}, (3, 12), 2 ** 63 - 1


def files(R, tier):
    have = {"lib/common.py": "library", "a/sensors.py": "a's", "b/sensors.py": "b's", "a/other.py": "a's other", "b/common.py": "b's common"}
    asked = ["a/sensors.py", "b/sensors.py", "a/other.py", "b/common.py"]

    def h(c):
        keep = {k: R.__dict__.get(k) for k in ("sys", "import_module")}
        try:
            for length in (1, 2, 3):
                for hist in itertools.product(asked, repeat=length):
                    for loaded in ((), ("common",)):
                        S = Sys()
                        for q in loaded: S.modules[q] = types.SimpleNamespace(SENSOR_DATA="library")

                        def imp(name, S=S):
                            if name in S.modules: return S.modules[name]
                            for d in S.path:
                                p = (d + "/" if d else "") + name + ".py"
                                if p in have:
                                    S.modules[name] = types.SimpleNamespace(SENSOR_DATA=have[p])
                                    return S.modules[name]
                            raise ImportError(name)
                        R.sys, R.import_module = S, imp
                        for k, p in enumerate(hist):
                            got = ctx.call(R.MatchUpReader().open_sensor_data, p)
                            c.oblige("%s after %s%s: the data of that file" % (p, list(hist[:k]), " with a loaded module of that name" if loaded and p == "b/common.py" else ""), lift(got == have[p]))
        finally:
            for k, v in keep.items():
                if v is not None: setattr(R, k, v)
    return h


def registered(tree):
    from pyvc import loader
    Q = loader.Program(tree)
    F = Q.load("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory

    def h(c):
        fac = ctx.call(F)
        names = list(ctx.call(fac.get_names))
        c.oblige("names differ", lift(len(names) == len(set(names)) and len(names) > 0))
        for nm in names:
            c.oblige("%s: registered under its own name" % nm, lift(fac.sensors_data[nm].name == nm))
            D = ctx.call(fac.get_sensor_data, nm)
            own = fac.sensors_data[nm].get_sensor_data()
            c.oblige("%s: its own data" % nm, lift(D is own or D == own))
            for s in D:
                d = D[s]
                c.oblige("%s %s: model, parameters and constants" % (nm, s), lift(callable(d["sensor_model"]) and isinstance(d["sensor_model_parameter"], list) and isinstance(d["sensor_model_constant"], list)))
                c.oblige("%s %s: one name and label per variable" % (nm, s), lift(all(len(d[k]) == d["sensor_model_variables_num"] for k in ("sensor_model_variable_names", "sensor_model_variable_labels") if k in d)))
    return h
