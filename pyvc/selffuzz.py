"""Random programs over arrays (views, in-place updates, aliasing, selections), run on numpy and on the models.

    python3-vt -m pyvc.selffuzz N SEED

A program is built statement by statement, each kept only when numpy accepts it; then the models run it with the data as
uninterpreted functions (concrete shapes, then a symbolic length) and every variable is compared at the end."""
import itertools
import sys
import random
import warnings
from fractions import Fraction
import numpy
from . import ctx, npmodel, terms as T
from .arr import SArr

warnings.simplefilter("ignore")
VIEWS = ["{a}[1:]", "{a}[:-1]", "{a}[::-1]", "{a}[::2]", "{a}.T", "{a}[0]", "{a}[-1]", "{a}[:, 0]", "{a}[:, -1]", "{a}[:, 1:]", "{a}[1:, :]", "{a}[:, None]", "{a}[None, :]", "{a}.reshape(-1)",
         "{a}.ravel()", "{a}.flatten()", "{a}.flatten('F')", "{a}.copy()", "{a}[i]", "{a}[i, :]", "{a}[[1, 0]]", "{a}[:, [1, 0]]", "{a}[g]", "{a}[g, :]", "{a}", "np.asarray({a})", "np.array({a})", "{a}[1:-1]",
         "{a}[...]", "{a}[0:2]", "{a}[n-2:n]", "{a}[:, ::-1]", "np.transpose({a})", "{a}.reshape(1, -1)", "{a}.astype(float)", "np.squeeze({a})", "{a}[{a} > 1.5]", "np.atleast_2d({a})", "{a}.reshape((n, 2))"]
EXPRS = ["{a} + {b}", "{a} - {b}", "{a} * {b}", "{a} / ({b} + 10.0)", "2.0 * {a}", "-{a}", "{a} ** 2", "np.dot({a}, {b})", "np.sum({a})", "np.sum({a}, axis=0)", "np.sum({a}, axis=1)", "{a}.sum()",
         "np.append({a}, {b})", "np.concatenate(({a}, {b}))", "np.hstack(({a}, {b}))", "np.vstack(({a}, {b}))", "np.column_stack(({a}, {b}))", "np.where({a} > {b}, {a}, {b})", "np.outer({a}, {b})",
         "np.zeros({a}.shape)", "np.ones_like({a})", "np.abs({a} - {b})", "np.maximum({a}, {b})", "np.minimum({a}, 1.5)", "np.diag({a})", "np.mean({a})", "np.mean({a}, axis=0)", "np.cumsum({a})",
         "np.full({a}.shape, 2.5)", "np.repeat({a}, 2)", "np.tile({a}, 2)", "np.array([{a}[0], {b}[0]])", "np.concatenate([{a}, {b}], axis=1)", "np.sqrt(np.abs({a}))", "{a}.mean()", "np.array([x for x in {a}])",
         "np.arange({a}.shape[0]) * 1.0", "np.eye(n)", "np.zeros((n, 2))", "np.average({a}, weights=np.abs({b}) + 1.0)", "np.clip({a}, 0.8, 2.0)", "np.square({a})", "len({a}) * {b}", "{a}.shape[0] + {b}", "np.max({a})", "np.min({a})",
         "{a}.dot({b})", "{a}[i] + {b}[i]", "np.linspace(0.0, 1.0, n)", "({a} > 1.5) * {b}", "np.isnan({a}) * 1.0", "np.count_nonzero({a} > 1.5) * 1.0", "np.add({a}, {b})", "np.multiply({a}, {b})"]
EXPRS += ["i + 1", "i / 2", "i // 2", "i % 2", "i * {a}", "{a} + i", "i - {a}", "np.sum(i)", "np.cumsum(i)", "i[1:] - i[:-1]", "np.mean(i)", "np.append(i, {a})", "np.append(i, 1)", "i * i", "{a} * g", "g * 1.0", "np.sum(g)", "np.sum(g) * {a}",
          "np.where(g, {a}, {b})", "np.where(g, i, {a})", "np.where(g, 1.0, 0.0)", "np.arange(1, n)", "np.arange(n) + {a}", "np.zeros(n, dtype=int)", "np.array(i, dtype=float)", "i.astype(float) / 2", "np.full(n, 3)", "np.ones(n, dtype='i4')",
          "np.array([i[0], {a}[0]])", "{a}[i] * i", "{a}[i[i]]", "np.any({a} > 2.0) * 1.0", "np.all({a} > 0.6) * 1.0", "np.sum({a} > 1.0, axis=0) * 1.0", "{a}[np.where({a} > 1.0)[0]]", "np.where({a} > 1.0)[0] * 1.0", "np.minimum(i, 2)", "i == 1", "{a}[-2:]", "{a}[:-2]", "{a}[-2]", "{a}[1:n]",
          "{a}[i[0]]", "{a}[i[0]:]", "{a}[:i[1]]", "{a}[:, i[0] - 1]", "{a}[-i]", "np.linspace({a}[0], {b}[0], 4)", "np.eye(n)[:, 0] * {a}", "np.dot({a}.T, {a})", "np.dot({a}, {a}.T)", "np.diag({a})[0]", "np.absolute({a} - 1.0)", "abs({a} - 1.0)", "sum({a})", "max({a}[0], {b}[0])", "min({a}[0], 1.0)", "len({a})", "int(n / 2)", "float({a}[0])",
          "np.zeros_like({a}, dtype=int)", "np.zeros_like(i)", "np.ones_like(i) * {a}", "{a} % 2.0", "{a} // 1.0", "2 ** i", "{a} ** 0.5", "{a} ** -1", "{a} > {b}", "np.sqrt({a} * {a})", "np.log(np.exp({a}))", "np.exp({a}) * np.exp(-{a})"]
STORES = ["i[:] = i[::-1]", "i[0] = 1", "i[1:] = i[:-1]", "i += 1", "i[i > 1] = 0", "g[0] = True", "g[:] = {a} > 1.0", "g &= {a} > 1.0", "{a}[i] = i", "{a}[:] = i", "{a}[g] = i[0]", "i[g] = 0", "{a}[:] = g", "{a}[-2:] = 0.5", "{a}[i[0]] += 1.0", "{a}[i[0]:] = 2.0", "{a}[:-2] = {b}[:-2]", "{a}[i[1], :] = {b}", "{a}[:] = {b}", "{a}[1:] = {b}[1:]", "{a}[1:] = {b}[:-1]", "{a} += {b}", "{a} *= 2.0", "{a}[0] = 7.0", "{a}[-1] = 8.0", "{a}[:, 0] = 3.0", "{a}[:, 1] = {b}", "{a}[i] = {b}", "{a}[i] += {b}", "{a}[::-1] = {b}",
          "{a}[{a} > 1.5] = 0.25", "{a}[{b} > 1.5] = 0.5", "{a}[0, :] = {b}[1, :]", "{a}[:, 0] += {b}[:, 1]", "{a}[1:] -= {a}[:-1]", "{a}[[0, 1]] = {b}[[1, 0]]", "{a}[g] = 1.0", "{a}[:, 0], {a}[:, 1] = {a}[:, 1], {a}[:, 0]",
          "{a}.T[0] = {b}", "{a}[...] = {b}", "{a}[1:][0] = 9.0", "{a}[::-1][0] = 9.5", "{a} -= {b}[0]", "{a}[0:2] *= {b}[0:2]", "{a}[n-1] = {b}[0]", "{a}[0], {a}[1] = {a}[1], {a}[0]", "{a}[:-1] = {a}[1:]", "{a}[g] += 2.0", "{a}[:, None] += 1.0",
          "{a}[[0, 0]] += 1.0", "{a}[0][1] = 4.5", "{a}[1, 1] *= 3.0", "{a}[::2] = 0.0", "{a}[::2] += {b}[::2]", "{a}.reshape(-1)[0] = 6.5", "{a}.ravel()[1] = 5.5", "{a}.flatten()[1] = 5.5", "{a}.fill(1.25)", "np.add({a}, {b}, out={a})",
          "for j in range({a}.shape[0]): {a}[j] = {a}[j] + {b}[j]", "for j in range(1, {a}.shape[0]): {a}[j] += {a}[j - 1]", "for x in {a}: x *= 2.0", "{a}[:, [0, 1]] = {a}[:, [1, 0]]", "{a}[i, 0] = {b}"]


class World(object):
    def __init__(self, data): self.data = data

    def __call__(self, name, args, sort):
        if name in self.data:
            try: return self.data[name][tuple(int(x) for x in args)]
            except IndexError: return 1e9
        if name == "isnan": return bool(args[0] != args[0])
        raise T.Unsupported("application of " + name)


def build(rng, data, env0, steps):
    lines, names = [], ["v", "w", "m", "q", "c"]
    env = dict(env0)
    for _ in range(steps):
        for _try in range(60):
            kind = rng.choice(["view", "expr", "store", "store"])
            a, b = rng.choice(names[-4:] if rng.random() < .6 else names), rng.choice(names)
            if kind == "store": line = rng.choice(STORES).format(a=a, b=b)
            else: line = "x%d = %s" % (len(lines), rng.choice(VIEWS if kind == "view" else EXPRS).format(a=a, b=b))
            trial = copy_env(env)
            try: exec(line, trial)
            except Exception: continue
            new = [k for k in trial if k not in env and k.startswith("x") and k != "x"]
            if any(not numpy.all(numpy.isfinite(numpy.asarray(trial[k], dtype=float))) or numpy.asarray(trial[k]).size > 60 for k in new): continue
            exec(line, env)
            lines.append(line)
            names += new
            break
    return lines, env


def copy_env(env):
    """Copies the arrays, keeping which of them share memory."""
    import copy
    mods = {k: v for k, v in env.items() if k in ("np", "__builtins__")}
    roots = {}

    def root(a):
        while isinstance(a.base, numpy.ndarray): a = a.base
        return a
    out = dict(mods)
    for k, v in env.items():
        if k in mods: continue
        if isinstance(v, numpy.ndarray):
            r = root(v)
            if id(r) not in roots: roots[id(r)] = (r, r.copy(order="K"))
            off = v.__array_interface__["data"][0] - r.__array_interface__["data"][0]
            nr = roots[id(r)][1]
            out[k] = numpy.lib.stride_tricks.as_strided(nr.ravel(order="K")[off // v.itemsize if v.size else 0:], v.shape, v.strides) if v.size else v.copy()
        else: out[k] = v
    return out


def number(x): return float(x)


def run_models(lines, data, n, k, symbolic):
    got = []

    def body(c):
        env = {"__app__": World(data)}
        N, K = T.const(n), T.const(k)
        if symbolic:
            N = T.sym("n", "I"); env[N] = n
            c.assume(T.le(T.const(3), N))
        sort = {"i": "I", "g": "B"}
        shapes = {"v": (N,), "w": (N,), "c": (K,), "i": (N,), "g": (N,), "m": (N, K), "q": (K, N)}

        def element(x):
            def fn(*ix):
                if not symbolic and all(T.is_const(j) for j in ix):
                    ix2 = [int(T.lift(j).args[0]) for j in ix]
                    if any(not 0 <= y < s for y, s in zip(ix2, data[x].shape)): return T.sym("outside", "R")
                    v = data[x][tuple(ix2)]
                    return T.const(int(v)) if x == "i" else T.lift(bool(v)) if x == "g" else T.real(Fraction(float(v)))
                return T.app(x, list(ix), sort.get(x, "R"))
            return fn
        if symbolic: c.fact("i", lambda args, app: T.and_(T.le(T.const(0), app), T.lt(app, N)))
        d = {x: SArr.of(shapes[x], element(x)) for x in shapes}
        d["i"].store.kind = "i"
        d["np"] = npmodel.module()
        d["n"] = N if symbolic else n
        try:
            for line in lines: exec(line, d)
        except T.Unsupported: raise
        except Exception:
            if all(T.evaluate(h, env, {}) for h in c.pc): raise
            return
        if not all(T.evaluate(h, env, {}) for h in c.pc): return
        out = {}
        for x in d:
            if x in ("np", "n", "__builtins__", "j", "x"): continue
            r = d[x]
            memo = {}
            if isinstance(r, SArr):
                sh = tuple(int(T.evaluate(T.lift(s), env, memo)) for s in r.shape)
                out[x] = sh, [number(T.evaluate(T.lift(r.at(*[T.const(int(j)) for j in ix])), env, memo)) for ix in numpy.ndindex(*sh)]
            elif T.liftable(r): out[x] = (), [number(T.evaluate(T.lift(r), env, memo))]
            else: raise T.Unsupported("value of type " + type(r).__name__)
        got.append((out, None))
    try: ctx.explore("fuzz", body, ctx.Prover(1500), 12, [], [])
    except T.Unsupported as e: return "unsupported", str(e)
    except ctx.CodeError as e: return ("unsupported" if "Unsupported" in str(e) else "error"), str(e)
    except Exception as e: return "error", "%s: %s" % (type(e).__name__, e)
    if not got: return "error", "no path"
    return "ok", got


def same(env, out):
    for x, (sh, vals) in out.items():
        want = numpy.asarray(env[x], dtype=float)
        if want.shape != sh: return "%s: shape %s, model %s" % (x, want.shape, sh)
        for a, b in zip(vals, want.reshape(-1)):
            if not abs(a - b) <= 1e-7 * max(1, abs(b)): return "%s: numpy %s, model %s" % (x, want.reshape(-1)[:8].tolist(), vals[:8])
    return None


def main(count=200, seed=0, steps=6, verbose=False):
    rng = random.Random(seed)
    tally = {"agree": 0, "unsupported": 0}
    why = {}
    bad = []
    for t in range(count):
        r = numpy.random.RandomState(rng.randrange(1 << 30))
        n, k = rng.choice([3, 4, 5]), rng.choice([2, 2, 3])
        data = {"v": 0.5 + 2 * r.rand(n), "w": 0.5 + 2 * r.rand(n), "c": 0.5 + 2 * r.rand(k), "m": 0.5 + 2 * r.rand(n, k), "q": 0.5 + 2 * r.rand(k, n), "i": r.permutation(n), "g": r.rand(n) > 0.4}
        env0 = {x: v.copy() for x, v in data.items()}
        env0.update(np=numpy, n=n)
        lines, env = build(rng, data, env0, rng.randrange(1, steps + 1))
        wrong = None
        for _ in range(12 if rng.random() < .35 else 0):
            a, b = rng.choice([x for x in env if isinstance(env[x], numpy.ndarray) and x not in "ig"]), rng.choice([x for x in env if isinstance(env[x], numpy.ndarray) and x not in "ig"])
            line = rng.choice([e for e in EXPRS + STORES + VIEWS]).format(a=a, b=b)
            try: exec(line, copy_env(env))
            except Exception:
                wrong = line
                break
        for symbolic in (False, True) if wrong else ():
            st, got = run_models(lines + [wrong], data, n, k, symbolic)
            if st == "ok": bad.append((lines + [wrong], symbolic, n, k, "numpy rejects the last statement, the models do not"))
            else: tally["agree" if st == "error" else "unsupported"] += 1
        for symbolic in (False, True):
            st, got = run_models(lines, data, n, k, symbolic)
            if st == "ok":
                res = [same(env, g[0]) for g in got]
                if any(x is None for x in res): tally["agree"] += 1
                else: bad.append((lines, symbolic, n, k, res[0]))
            elif st == "unsupported":
                tally["unsupported"] += 1
                why[got[:60]] = why.get(got[:60], 0) + 1
            else: bad.append((lines, symbolic, n, k, got))
    if verbose:
        for w, x in sorted(why.items(), key=lambda y: -y[1])[:25]: print("unsupported %4d  %s" % (x, w))
    for lines, symbolic, n, k, w in bad[:12]: print("DISAGREES (%s, n=%d k=%d)  %s\n      %s" % ("symbolic" if symbolic else "concrete", n, k, "; ".join(lines), str(w)[:300]))
    print("random array programs: %d agree, %d outside the modelled subset, %d disagree" % (tally["agree"], tally["unsupported"], len(bad)))
    return bad


if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit(1 if main(int(a[0]) if a else 200, int(a[1]) if len(a) > 1 else 0, verbose=True) else 0)
