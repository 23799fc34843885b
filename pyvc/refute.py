"""Concrete counterexamples: an assignment of the free atoms that satisfies the hypotheses (with the universally quantified
facts at every application met) and falsifies the goal, both evaluated exactly, sums and functions included."""
import random, time
from fractions import Fraction
import z3
from . import terms as T, smt


def atoms(ts):
    out = {}
    for t in ts:
        for s in T.subterms(t):
            if s.op == "sym" and not str(s.args[0]).startswith("#"): out[s] = True
    return list(out)


def _model(fs, seed, small, side, L):
    """A model of the formulas with small integers where possible."""
    s = z3.Solver()
    s.set("timeout", 2000)
    s.set("random_seed", seed)
    for f in fs: s.add(f)
    for f in side: s.add(f)
    if s.check() != z3.sat: return None
    r = random.Random(seed)
    soft = [L(v) for v in small]
    r.shuffle(soft)
    for v in soft[:40]:
        for cond in (v == r.randint(0, 3) + r.randint(0, 2), z3.And(v <= r.randint(0, 3) + 2, v >= -2)):
            s.push()
            s.add(cond)
            if s.check() == z3.sat: break
            s.pop()
    return s.model() if s.check() == z3.sat else None


def number(v):
    """z3 value -> Fraction / int / bool, or None."""
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


class World(object):
    """Values of uninterpreted applications: those of the model where it fixes them, arbitrary (repeatable) ones elsewhere."""

    def __init__(self, model, rng):
        self.model, self.rng, self.apps = model, rng, {}
        self.interp = {}
        if model is not None:
            for d in model.decls():
                if d.arity() and isinstance(model[d], z3.FuncInterp):
                    f = model[d]
                    self.interp[d.name()] = {tuple(number(f.entry(i).arg_value(j)) for j in range(d.arity())): number(f.entry(i).value()) for i in range(f.num_entries())}

    def __call__(self, name, args, sort):
        k = (name,) + tuple(args)
        if k in self.apps: return self.apps[k][0]
        pre = name + "/"
        v = None
        for d, e in self.interp.items():
            if d.startswith(pre) and len(d) == len(pre) + len(args): v = e.get(tuple(args))
        if v is None:
            if sort == "B": v = self.rng.random() < 0.5
            elif sort == "I": v = self.rng.randint(0, 4)
            else: v = Fraction(self.rng.randint(1, 4000), 1000) * (1 if self.rng.random() < 0.7 else -1)
        self.apps[k] = (v, sort)
        return v


def const(v):
    if isinstance(v, bool): return T.TRUE if v else T.FALSE
    return T.const(v) if isinstance(v, int) else T.real(v)


def violated(world, facts, env, memo, limit=150):
    """Instances of the universal facts at the applications that were evaluated, when one of them does not hold (else [])."""
    done, inst, bad = set(), [], False
    while True:
        todo = [k for k in world.apps if k not in done and k[0] in facts]
        if not todo or len(done) > limit: return inst if bad else []
        for k in todo:
            done.add(k)
            args = [const(a) for a in k[1:]]
            t = T.app(k[0], args, world.apps[k][1])
            for f in facts[k[0]]:
                g = T.lift(f(args, t))
                if g is T.TRUE: continue
                if not T.evaluate(g, env, memo):
                    bad = True
                    if len(inst) > 60: return inst
                inst.append(g)


def search(hyps, goal, tries=10, seed=1, rel=1e-6, facts=None, limit=8.0):
    """-> dict description of a falsifying assignment, or None."""
    facts = facts or {}
    ats = atoms(list(hyps) + [goal])
    ints = [a for a in ats if a.sort == "I"]
    t0 = time.time()
    for n in range(tries):
        rng = random.Random(seed * 1000 + n)
        extra, seen = [], set()
        for turn in range(8):
            if time.time() - t0 > limit: return None
            L = smt.Lower()
            fs = [L(h) for h in list(hyps) + extra]
            model = None
            if n % 2 == 0: model = _model(fs + [z3.Not(L(goal))], n, ints, L.side, L)
            if model is None and (ints or hyps):
                model = _model(fs, n, ints, L.side, L)
                if model is None: break
            env = {}
            guided = n % 4 == 0
            for a in ats:
                v = number(model.eval(L(a), model_completion=True)) if model is not None and (a.sort != "R" or guided) else None
                if v is None: v = Fraction(rng.randint(1, 4000), 1000) if a.sort == "R" else (0 if a.sort == "I" else rng.random() < 0.5)
                env[a] = v
            world = env["__app__"] = World(model, rng)
            try:
                memo = {}
                ok = all([T.evaluate(h, env, memo) for h in hyps]) and falsified(goal, env, memo, rel)
                if any(k[0].startswith(("piece!", "hidden!")) for k in world.apps): break
                new = [g for g in violated(world, facts, env, memo) if g not in seen]
                if not new and ok:
                    return {"assignment": {T.show(a): str(env[a]) for a in ats},
                            "uninterpreted": {"%s(%s)" % (k[0], ",".join(str(x) for x in k[1:])): str(v[0]) for k, v in list(world.apps.items())[:60]}}
                if not new: break
                extra += new
                seen.update(new)
            except (ZeroDivisionError, ValueError, OverflowError, KeyError, TypeError, RecursionError):
                break
    return None


def falsified(goal, env, memo, rel):
    if goal.op == "and": return any(falsified(g, env, memo, rel) for g in goal.args)
    if goal.op == "or": return all(falsified(g, env, memo, rel) for g in goal.args)
    if goal.op == "eq":
        a, b = T.evaluate(goal.args[0], env, memo), T.evaluate(goal.args[1], env, memo)
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
            return abs(a - b) > rel * max(1e-3, abs(a), abs(b))
        return a != b
    if goal.op in ("lt", "le"):
        a, b = float(T.evaluate(goal.args[0], env, memo)), float(T.evaluate(goal.args[1], env, memo))
        return a > b + rel * max(1e-3, abs(a), abs(b))
    return not T.evaluate(goal, env, memo)
