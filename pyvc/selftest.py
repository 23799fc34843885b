"""selftest: the contract models of numpy used by the deductive step, compared with the real numpy.

    python3-vt -m pyvc.selftest          exit 0: every model agreed on every sample; 1: a disagreement (printed)

Every snippet is run twice on the same data: on numpy arrays, and on the models with the arrays given as uninterpreted
functions of their indices (concrete shapes, then symbolic ones where the snippet is marked so).  The terms the models
produce are evaluated with the data filled in and compared element by element.  selffuzz.py does the same with random
programs (views, in-place updates, aliasing, statements numpy rejects)."""
import sys
from fractions import Fraction
import numpy
from . import ctx, npmodel, terms as T
from .arr import SArr

S = {}          # name -> (symbolic shapes too?, function of (np, data))


def snippet(sym=True):
    def deco(f):
        S[f.__name__] = (sym, f)
        return f
    return deco


# d: dict of arrays  v, w: length n   m: (n, k)   q: (k, n)  i: integer vector of length n, values 0..n-1   g: mask (n)
def _s(name, sym, f): S[name] = (sym, f)


for name, op in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b), ("div", lambda a, b: a / b)):
    _s(name + "-vv", True, lambda np, d, op=op: op(d["v"], d["w"]))
    _s(name + "-vs", True, lambda np, d, op=op: op(d["v"], 3.0))
    _s(name + "-sv", True, lambda np, d, op=op: op(3.0, d["v"]))
    _s(name + "-mv", True, lambda np, d, op=op: op(d["m"], d["c"]))
    _s(name + "-mn", True, lambda np, d, op=op: op(d["m"], d["v"][:, None]))
for name, op in (("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b), ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b), ("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b)):
    _s(name, True, lambda np, d, op=op: op(d["v"], d["w"]))
for name in ("exp", "sqrt", "absolute", "square", "negative"):
    _s(name, True, lambda np, d, name=name: getattr(np, name)(d["v"]))
_s("log", True, lambda np, d: np.log(d["v"]))
_s("power", True, lambda np, d: d["v"] ** 2)
_s("neg", True, lambda np, d: -d["v"])
_s("floor-int", False, lambda np, d: np.floor(d["v"]))
_s("clip", True, lambda np, d: np.clip(d["v"], 1.5, 2.5))
_s("slice-head", True, lambda np, d: d["v"][1:])
_s("slice-tail", True, lambda np, d: d["v"][:-1])
_s("slice-diff", True, lambda np, d: d["v"][1:] - d["v"][:-1])
_s("slice-step", False, lambda np, d: d["v"][::2])
_s("slice-back", False, lambda np, d: d["v"][::-1])
_s("slice-neg", True, lambda np, d: d["v"][-1])
_s("col", True, lambda np, d: d["m"][:, 1])
_s("row", True, lambda np, d: d["m"][0, :])
_s("row-short", True, lambda np, d: d["m"][0])
_s("block", True, lambda np, d: d["m"][1:, 0:2])
_s("newaxis", True, lambda np, d: d["v"][:, np.newaxis] * d["c"][np.newaxis, :])
_s("transpose", True, lambda np, d: d["m"].T)
_s("fancy", True, lambda np, d: d["v"][d["i"]])
_s("fancy-rows", True, lambda np, d: d["m"][d["i"], :])
_s("fancy-list", False, lambda np, d: d["m"][:, [1, 0]])
_s("dot-vv", True, lambda np, d: np.dot(d["v"], d["w"]))
_s("dot-mv", True, lambda np, d: np.dot(d["m"], d["c"]))
_s("dot-vm", True, lambda np, d: np.dot(d["v"], d["m"]))
_s("dot-mm", True, lambda np, d: np.dot(d["m"], d["q"]))
_s("outer", True, lambda np, d: np.outer(d["v"], d["c"]))
_s("diag", True, lambda np, d: np.diag(np.dot(d["m"], d["q"])))
_s("cumsum", False, lambda np, d: np.cumsum(d["v"]))
_s("sum", True, lambda np, d: np.sum(d["v"]))
_s("sum0", True, lambda np, d: np.sum(d["m"], axis=0))
_s("sum1", True, lambda np, d: np.sum(d["m"], axis=1))
_s("mean", True, lambda np, d: np.mean(d["v"]))
_s("average-w", True, lambda np, d: np.average(d["v"], weights=d["w"]))
_s("where", True, lambda np, d: np.where(d["g"], d["v"], d["w"]))
_s("where-cmp", True, lambda np, d: np.where(d["v"] > d["w"], d["v"], 0.0))
_s("isnan", True, lambda np, d: np.isnan(d["v"]))
_s("logical", True, lambda np, d: np.logical_and(d["v"] > 1, d["w"] > 1))
_s("mask-and", True, lambda np, d: (d["v"] > 1) & (d["w"] > 1))
_s("mask-not", True, lambda np, d: ~(d["v"] > 1))
_s("zeros", True, lambda np, d: np.zeros(d["v"].shape[0]) + d["v"])
_s("ones2", True, lambda np, d: np.ones((d["v"].shape[0], 2)))
_s("zeros-like", True, lambda np, d: np.zeros_like(d["m"]))
_s("full", True, lambda np, d: np.full(d["v"].shape[0], 2.5))
_s("eye", True, lambda np, d: np.eye(d["v"].shape[0]))
_s("arange", True, lambda np, d: np.arange(d["v"].shape[0]))
_s("arange2", True, lambda np, d: np.arange(2, d["v"].shape[0] + 2))
_s("linspace", False, lambda np, d: np.linspace(1.0, 2.0, 5))
_s("append", True, lambda np, d: np.append(d["v"], d["c"]))
_s("append-s", True, lambda np, d: np.append(d["v"], 7.0))
_s("concatenate", True, lambda np, d: np.concatenate((d["v"], d["c"], d["w"])))
_s("concatenate-rows", True, lambda np, d: np.concatenate((d["m"], d["m"] * 2.0)))
_s("hstack", True, lambda np, d: np.hstack((d["v"], d["w"])))
_s("vstack", True, lambda np, d: np.vstack((d["v"], d["w"])))
_s("column_stack", True, lambda np, d: np.column_stack((d["v"], d["w"])))
_s("repeat", False, lambda np, d: np.repeat(d["v"], 2))
_s("flatten", False, lambda np, d: d["m"].flatten())
_s("flatten-F", False, lambda np, d: d["m"].flatten("F"))
_s("reshape", False, lambda np, d: d["m"].reshape(-1))
_s("min", False, lambda np, d: np.min(d["v"]))
_s("max", False, lambda np, d: np.max(d["v"]))
_s("any", False, lambda np, d: np.any(d["v"] > 2))
_s("all", False, lambda np, d: np.all(d["v"] > 2))
_s("count_nonzero", False, lambda np, d: np.count_nonzero(d["v"] > 2))
_s("array_equal", False, lambda np, d: np.array_equal(d["v"], d["w"]))
_s("unique", False, lambda np, d: np.unique(np.array([3, 1, 2, 3, 1])))
_s("select-mask", False, lambda np, d: d["v"][numpy.array(d["gl"])])
_s("array-list", False, lambda np, d: np.array([[1.0, 2.0], [3.0, 4.0]]))


@snippet()
def store_slice(np, d):
    r = np.zeros(d["v"].shape[0] + 2)
    r[1:-1] = d["v"]
    r[0] = 5.0
    return r


@snippet()
def store_block(np, d):
    r = np.zeros((d["v"].shape[0], 3))
    r[:, 1] = d["v"]
    r[0, :] = 4.0
    return r


@snippet()
def inplace(np, d):
    r = d["v"].copy()
    r *= d["w"]
    r[1:] += 1.0
    return r


@snippet()
def view_writes_through(np, d):
    r = d["v"].copy()
    t = r[1:]
    t[0] = 9.0
    t += 1.0
    return r


@snippet()
def reads_before_writes(np, d):
    r = d["v"].copy()
    r[1:] = r[:-1]
    return r


@snippet()
def copy_is_separate(np, d):
    r = d["v"].copy()
    t = r.copy()
    t[0] = 9.0
    return r


@snippet(False)
def mask_store(np, d):
    r = d["v"].copy()
    r[r > 2] = 0.0
    return r


@snippet()
def mask_store_sym(np, d):
    r = d["v"].copy()
    r[d["w"] > 2] = 0.0
    return r


@snippet(False)
def fancy_add(np, d):
    r = np.zeros(d["v"].shape[0])
    r[[0, 1]] += d["v"][[1, 0]]
    return r


@snippet(False)
def int_division(np, d):
    return d["i"] // 2


@snippet(False)
def int_store_truncates(np, d):
    r = np.zeros(d["v"].shape[0], dtype=np.int32)
    r[:] = np.arange(d["v"].shape[0])
    return r


class World(object):
    def __init__(self, data): self.data = data

    def __call__(self, name, args, sort):
        if name in self.data: return self.data[name][tuple(int(x) for x in args)]
        import math
        if name in ("floor", "round"): return getattr(math, name, round)(args[0]) if name == "floor" else int(numpy.rint(float(args[0])))
        raise T.Unsupported("application of " + name)


def number(x):
    if isinstance(x, (bool, numpy.bool_)): return bool(x)
    if isinstance(x, Fraction): return float(x)
    return float(x)


def entries(r, env, memo):
    """Model value -> (shape, list of numbers)."""
    if isinstance(r, SArr):
        sh = tuple(int(T.evaluate(T.lift(s), env, memo)) for s in r.shape)
        return sh, [number(T.evaluate(T.lift(r.at(*[T.const(int(j)) for j in ix])), env, memo)) for ix in numpy.ndindex(*sh)]
    if T.liftable(r): return (), [number(T.evaluate(T.lift(r), env, memo))]
    return (), [number(r)]


def one(name, f, data, n, k, symbolic):
    want = numpy.asarray(f(numpy, dict(data, gl=list(data["g"]))))
    got = []

    def body(c):
        env = {"__app__": World({x: data[x].tolist() if False else data[x] for x in ("v", "w", "m", "q", "c", "i", "g")})}
        N, K = T.const(n), T.const(k)
        if symbolic:
            N = T.sym("n", "I"); env[N] = n
            c.assume(T.le(T.const(3), N))
        sort = {"i": "I", "g": "B"}
        shapes = {"v": (N,), "w": (N,), "c": (K,), "i": (N,), "g": (N,), "m": (N, K), "q": (K, N)}

        def elem(x):
            def fn(*ix):
                if not symbolic and all(T.is_const(j) for j in ix):
                    v = data[x][tuple(int(j.args[0]) for j in ix)]
                    return T.const(int(v)) if x == "i" else T.lift(bool(v)) if x == "g" else T.real(Fraction(float(v)))
                return T.app(x, list(ix), sort.get(x, "R"))
            return fn
        if symbolic: c.fact("i", lambda args, app: T.and_(T.le(T.const(0), app), T.lt(app, N)))
        d = {x: SArr.of(shapes[x], elem(x)) for x in shapes}
        d["i"].store.kind = "i"
        d["gl"] = list(data["g"])
        r = f(npmodel.module(), d)
        got.append(entries(r, env, {}))
    notes, sink = [], []
    try:
        ctx.explore("selftest", body, ctx.Prover(2000), 20, notes, sink)
    except T.Unsupported as e:
        return "unsupported", str(e)
    except ctx.CodeError as e:
        return ("unsupported" if "Unsupported" in str(e) else "error"), str(e)
    except Exception as e:
        return "error", "%s: %s" % (type(e).__name__, e)
    if not got: return "error", "no path reached the end"
    ok = [g for g in got if g[0] == want.shape and all(a == b if isinstance(b, bool) else abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b))) for a, b in zip(g[1], [number(x) for x in want.reshape(-1)]))]
    if symbolic and len(got) > 1: return ("agree", "") if ok else ("differ", "none of %d paths" % len(got))
    return ("agree", "") if ok else ("differ", "numpy %s %s, model %s" % (want.shape, want.reshape(-1)[:8].tolist(), got[0]))


def main(verbose=False, seeds=2):
    count = {"agree": 0, "unsupported": 0}
    bad = []
    for seed in range(seeds):
        r = numpy.random.RandomState(seed)
        n, k = 4 + seed, 2 + seed
        data = {"v": 0.5 + 3 * r.rand(n), "w": 0.5 + 3 * r.rand(n), "c": 0.5 + 3 * r.rand(k), "m": 0.5 + r.rand(n, k), "q": 0.5 + r.rand(k, n), "i": r.permutation(n), "g": r.rand(n) > 0.5}
        for name, (sym, f) in S.items():
            for symbolic in ((False, True) if sym else (False,)):
                st, why = one(name, f, data, n, k, symbolic)
                if st in ("agree", "unsupported"): count[st] += 1
                else: bad.append((name, symbolic, st, why))
                if verbose and st != "agree": print(st, name, "symbolic" if symbolic else "concrete", why[:200])
    for b in bad: print("DISAGREES", b[0], "symbolic" if b[1] else "concrete", b[2], b[3][:300])
    print("numpy models: %d samples agree, %d outside the modelled subset, %d disagree" % (count["agree"], count["unsupported"], len(bad)))
    return count, bad


if __name__ == "__main__":
    from . import selffuzz
    bad = main("-v" in sys.argv)[1] + selffuzz.main(150, 1)
    sys.exit(1 if bad else 0)
