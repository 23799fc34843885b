"""Path contexts: forward symbolic execution of the real code by re-execution, obligations, and the prover."""
import time
from . import terms as T
from . import smt, poly, refute

_stack = []


def current():
    if not _stack:
        raise T.Unsupported("symbolic branch outside a verification context")
    return _stack[-1]


class Infeasible(Exception):
    """The current path condition is contradictory (path dropped)."""


class PathEnd(Exception):
    """The path ends here with its obligations stated (end of the body of a loop with a declared invariant)."""


class Budget(T.Unsupported):
    pass


class Obligation(object):
    def __init__(self, name, status, backend, detail, secs, path):
        self.name, self.status, self.backend, self.detail, self.secs, self.path = name, status, backend, detail, secs, path


class Prover(object):
    def __init__(self, timeout=4000):
        self.timeout = timeout
        self.cache = {}
        self.failed = 0
        self.segs = {}              # piecewise written arrays: application symbol -> resolver (instrument.segments)
        self.nonneg = {}
        self.hints = []             # index terms at which the terms of sums of non-negative numbers are compared with the sum
        self.facts = {}             # application symbol -> list of (args, term) -> fact: universally quantified assumptions

    def inst(self, hyps, *goals):
        """hyps plus the instances of the registered universal facts at the applications that occur."""
        hs = relevant(hyps)
        sl = self.sum_lemmas(hs, goals)
        if sl: hs = relevant(hs + sl)
        if not self.facts: return hs
        done, todo = set(), list(hs) + [g for g in goals if g is not None]
        out = list(hs)
        for _ in range(3):
            new = []
            for t in todo:
                for s in T.subterms(t):
                    if s.op in ("app", "fn") and s.args[0] in self.facts and s not in done and not T.free_bound(s):
                        done.add(s)
                        for f in self.facts[s.args[0]]: new.append(T.lift(f(s.args[1:], s)))
            if not new: break
            out.extend(new)
            todo = new
        return relevant(out)

    def sum_lemmas(self, hs, goals):
        """Order and one-step facts of the integer sums that occur (same start, same terms)."""
        groups, seen = {}, set()
        todo = [t for t in list(hs) + [g for g in goals if g is not None]]
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.add(t)
            if t.op == "sum":
                if t.sort == "I" and not T.free_bound(t): groups.setdefault((t.args[1], t.args[3]), []).append(t)
                todo += list(t.args[1:3])
            else: todo.extend(a for a in t.args if isinstance(a, T.Term))
        out = []
        for (lo, body), ss in groups.items():
            bv = ss[0].args[0]
            nn = self.is_nonneg(lo, bv, body)
            for i, s in enumerate(ss):
                h = s.args[2]
                out.append(T.implies(T.le(h, lo), T.eq(s, T.const(0))))
                out.append(T.implies(T.eq(h, lo + 1), T.eq(s, T.subst(body, {bv: lo}))))
                if nn:
                    out.append(T.le(T.const(0), s))
                    for e in self.hints: out.append(T.implies(T.and_(T.le(lo, e), T.lt(e, h)), T.le(T.subst(body, {bv: e}), s)))
                for r in ss[i + 1:]:
                    for a, b in ((s, r), (r, s)):
                        ha, hb = a.args[2], b.args[2]
                        step = T.add(a, T.subst(body, {bv: ha}))
                        out.append(T.implies(T.and_(T.le(lo, ha), T.eq(hb, ha + 1)), T.eq(b, step)))
                        if nn:
                            out.append(T.implies(T.le(ha, hb), T.le(a, b)))
                            out.append(T.implies(T.and_(T.le(lo, ha), T.lt(ha, hb)), T.le(step, b)))
        return out

    def is_nonneg(self, lo, bv, body):
        key = (lo, body)
        if key not in self.nonneg:
            self.nonneg[key] = False
            k = T.fresh("k", "I")
            b = T.subst(body, {bv: k})
            self.nonneg[key] = smt.check(self.inst([T.le(lo, k)], b), T.le(T.const(0), b), self.timeout)[0] == "valid"
        return self.nonneg[key]

    # -- basic queries -------------------------------------------------------------------------------------------
    def implied(self, hyps, c):
        """True / False / None: is c (resp. not c) implied by hyps?"""
        if c is T.TRUE: return True
        if c is T.FALSE: return False
        hs = self.inst(hyps, c)
        for h in hs:
            if h is c: return True
            if h is T.not_(c): return False
        key = (tuple(sorted(h.id for h in hs)), c.id)
        r = self.cache.get(key, 0)
        if r != 0: return r
        v, _ = smt.check(hs, c, self.timeout)
        if v == "valid": r = True
        else:
            v, _ = smt.check(hs, T.not_(c), self.timeout)
            r = False if v == "valid" else None
        self.cache[key] = r
        return r

    def feasible(self, hyps):
        v, _ = smt.check(self.inst(hyps), None, self.timeout)
        return v != "valid"

    # -- ite elimination -----------------------------------------------------------------------------------------
    def simp(self, hyps, t, memo=None):
        """Resolve the ite nodes of t whose conditions are decided by hyps."""
        if memo is None: memo = {}
        r = memo.get(t)
        if r is not None: return r
        if t.op in ("const", "sym"): return t
        if t.op == "ite":
            c = self.simp(hyps, t.args[0], memo)
            d = self.implied(hyps, c)
            if d is True: r = self.simp(hyps, t.args[1], memo)
            elif d is False: r = self.simp(hyps, t.args[2], memo)
            else:
                a = self.simp(hyps + [c], t.args[1])
                b = self.simp(hyps + [T.not_(c)], t.args[2])
                r = T.ite(c, a, b)
        elif t.op == "sum":
            bv, lo, hi, body = t.args
            lo, hi = self.simp(hyps, lo, memo), self.simp(hyps, hi, memo)
            k = T.fresh("k", "I")
            gap = T.sub(hi, lo)
            if gap.op == "const" and gap.args[0] <= 12:
                r = memo[t] = self.simp(hyps, T.sum_(bv, lo, hi, body), memo)
                return r
            body2 = self.simp(hyps + [T.le(lo, k), T.lt(k, hi)], T.subst(body, {bv: k}))
            if body2.op == "const" and self.implied(hyps, T.le(lo, hi)) is True: r = T.mul(body2, gap if body2.sort == "I" else T.toreal(gap))
            else: r = sum_split(self, hyps, k, lo, hi, body2)
        else:
            args = [self.simp(hyps, a, memo) if isinstance(a, T.Term) else a for a in t.args]
            r = t if all(x is y for x, y in zip(args, t.args)) else T.rebuild(t, args)
            if r.op == "app" and r.args[0] in self.segs:
                v = self.segs[r.args[0]](self, hyps, r.args[1:])
                if v is not None: r = self.simp(hyps, v, memo)
        memo[t] = r
        return r

    def first_ite(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen: return None
        seen.add(t)
        if t.op == "sum": return self.first_ite(t.args[1], seen) or self.first_ite(t.args[2], seen)
        for a in t.args:
            if isinstance(a, T.Term):
                r = self.first_ite(a, seen)
                if r is not None: return r
        if t.op == "ite": return t.args[0]
        return None

    # -- main ------------------------------------------------------------------------------------------------------
    def prove(self, hyps, goal, depth=0, budget=None):
        """-> (status, backend, detail)"""
        if budget is None: budget = [256]
        budget[0] -= 1
        if budget[0] < 0: return "unknown", None, "case-split budget exhausted"
        if goal is T.TRUE: return "valid", "trivial", ""
        if goal.op == "and":
            be = set()
            for g in goal.args:
                s, b, d = self.prove(hyps, g, depth, budget)
                if s != "valid": return s, b, d
                be.add(b)
            return "valid", "+".join(sorted(x for x in be if x)), ""
        if goal.op == "or":
            main = [g for g in goal.args if g.op == "eq" and g.args[0].sort == "R"]
            if len(main) == 1: return self.prove(hyps + [T.not_(g) for g in goal.args if g is not main[0]], main[0], depth, budget)
        goal = self.simp(hyps, goal)
        if goal is T.TRUE: return "valid", "trivial", ""
        if goal.op == "eq" and poly.valid_eq(*goal.args): return "valid", "ring", ""
        c = self.first_ite(goal)
        if c is not None and depth < 40:
            be = set()
            for h in (c, T.not_(c)):
                if not self.feasible(hyps + [h]): continue
                s, b, d = self.prove(hyps + [h], goal, depth + 1, budget)
                if s != "valid": return s, b, "%s [case %s]" % (d, T.show(h)[:200])
                be.add(b)
            return "valid", "+".join(sorted(x for x in be if x)) or "z3", ""
        if goal.op == "eq":
            g2 = self.match_sums(hyps, goal)
            if g2 is not None and g2 is not goal:
                if g2 is T.TRUE or (g2.op == "eq" and poly.valid_eq(*g2.args)): return "valid", "ring+sum", ""
                goal = g2
        hs = self.inst(hyps, goal)
        s, info = smt.prove(hs, goal, self.timeout)
        if s == "valid": return "valid", info, ""
        rep = self.match_hyps(hyps, hs, goal)
        if rep:
            s2, info2 = smt.prove([T.subst(h, rep) for h in hs], goal, self.timeout)
            if s2 == "valid": return "valid", info2 + "+sum", ""
        return s, None, ("goal: %s\n%s" % (T.show(goal)[:1500], info or ""))

    def match_sums(self, hyps, goal):
        """Identify sums with provably equal bounds and bodies by a common representative (congruence)."""
        ss = [t for t in T.subterms(goal) if t.op == "sum"]
        if not ss: return None
        rep = {}
        reps = []
        for s in ss:
            for r in reps:
                if self.sum_eq(hyps, s, r):
                    rep[s] = r
                    break
            else: reps.append(s)
        if not rep: return goal
        return T.subst(goal, rep)

    def match_hyps(self, hyps, hs, goal):
        """Sums of the hypotheses that are provably the same as a sum of the goal."""
        sums = lambda t: [x for x in T.subterms(t) if x.op == "sum" and x.sort == "R" and not T.free_bound(x)]
        mine = sums(goal)
        if not mine: return None
        rep, tried = {}, 0
        for h in hs:
            for x in sums(h):
                if x in rep or any(x is m for m in mine): continue
                for g in mine:
                    if x.args[1] is g.args[1] and x.args[2] is g.args[2]:
                        tried += 1
                        if tried > 40: return rep
                        if self.sum_eq(hyps, x, g):
                            rep[x] = g
                            break
        return rep

    def sum_eq(self, hyps, s, r):
        if s is r: return True
        for i in (1, 2):
            if s.args[i] is not r.args[i] and self.implied(hyps, T.eq(s.args[i], r.args[i])) is not True: return False
        k = T.fresh("k", "I")
        h = hyps + [T.le(s.args[1], k), T.lt(k, s.args[2])]
        g = T.eq(T.subst(s.args[3], {s.args[0]: k}), T.subst(r.args[3], {r.args[0]: k}))
        r = self.prove(h, g, 20, [24])
        return r[0] == "valid"


def sum_split(pr, hyps, k, lo, hi, body):
    """Linear decomposition of a sum: constants out, additive parts apart, delta (ite(k==e, v, 0)) eliminated."""
    if body.op == "add":
        r = None
        for a in body.args:
            s = sum_split(pr, hyps, k, lo, hi, a)
            r = s if r is None else T.add(r, s)
        return r
    if body.op == "ite" and T.is_const(body.args[2], 0) and k not in T.syms(body.args[0]):
        return T.ite(body.args[0], sum_split(pr, hyps, k, lo, hi, body.args[1]), T.real(0))
    if body.op == "mul":
        out = [a for a in body.args if k not in T.syms(a)]
        inn = [a for a in body.args if k in T.syms(a)]
        if out and inn:
            s = sum_split(pr, hyps, k, lo, hi, product(inn))
            for a in out: s = T.mul(a, s)
            return s
    if body.op == "div" and k not in T.syms(body.args[1]):
        return T.div(sum_split(pr, hyps, k, lo, hi, body.args[0]), body.args[1])
    p = find_cut(body, k, set())
    if p: return sum_cut(pr, hyps, k, lo, hi, body, *p)
    return T.sum_(k, lo, hi, body)


def find_cut(t, k, seen):
    """A case distinction of t (outside of inner sums) at a fixed value of k."""
    if t in seen or t.op in ("sum", "app", "fn"): return None
    seen.add(t)
    if t.op == "ite":
        r = cut_point(t.args[0], k)
        if r: return r
    for a in t.args:
        if isinstance(a, T.Term):
            r = find_cut(a, k, seen)
            if r: return r
    return None


def product(xs):
    r = xs[0]
    for x in xs[1:]: r = T.mul(r, x)
    return r


def cut_point(c, k):
    """(atom, kind, e): an atom of condition c equivalent to k == e, k < e or k >= e, with e free of k."""
    if c.op in ("and", "or", "not"):
        for a in c.args:
            r = cut_point(a, k)
            if r: return r
        return None
    if c.op not in ("lt", "le", "eq") or c.args[0].sort != "I" or c.args[1].sort != "I" or k not in T.syms(c): return None
    d = T.sub(c.args[0], c.args[1])
    r0, r1, r2 = [T.subst(d, {k: T.const(v)}) for v in (0, 1, 2)]
    s1, s2 = T.sub(r1, r0), T.sub(r2, r1)
    if s1 is not s2 or s1.op != "const" or s1.args[0] not in (1, -1) or k in T.syms(r0): return None
    if s1.args[0] == 1:
        e = T.sub(T.const(0), r0)                       # k - e
        return c, {"eq": "eq", "lt": "lt", "le": "lt"}[c.op], e + 1 if c.op == "le" else e
    e = r0                                  # e - k
    return c, {"eq": "eq", "lt": "ge", "le": "ge"}[c.op], e + 1 if c.op == "lt" else e


def sum_cut(pr, hyps, k, lo, hi, body, atom, kind, e):
    inside = hyps + [T.le(lo, k), T.lt(k, hi)]
    yes, no = [T.subst(body, {atom: v}) for v in (T.TRUE, T.FALSE)]
    if kind == "eq":
        at = T.and_(T.le(lo, e), T.lt(e, hi))
        d = pr.implied(hyps, at)
        rest = pr.simp(inside, no)
        r = sum_split(pr, hyps, k, lo, hi, rest)
        if d is False: return r
        one = T.subst(T.sub(yes, no), {k: e})
        one = pr.simp(hyps if d else hyps + [at], one)
        return T.add(r, one if d else T.ite(at, one, T.real(0)))
    if kind == "ge": yes, no = no, yes
    if pr.implied(hyps, T.le(e, lo)): m = lo
    elif pr.implied(hyps, T.le(hi, e)): m = hi
    else:
        m = e
        if not pr.implied(hyps, T.le(lo, e)): m = T.ite(T.le(e, lo), lo, m)
        if not pr.implied(hyps, T.le(e, hi)): m = T.ite(T.le(hi, e), hi, m)
        if m.op == "ite" and not pr.implied(hyps, T.le(lo, hi)): return T.sum_(k, lo, hi, body)
    r = T.real(0)
    for a, b, x in ((lo, m, yes), (m, hi, no)):
        if a is b: continue
        x = pr.simp(hyps + [T.le(a, k), T.lt(k, b)], x)
        r = T.add(r, sum_split(pr, hyps, k, a, b, x))
    return r


def relevant(hyps):
    out = []
    for h in hyps:
        if h is T.TRUE: continue
        if h.op == "and": out.extend(h.args)
        else: out.append(h)
    seen, r = set(), []
    for h in out:
        if h not in seen:
            seen.add(h)
            r.append(h)
    return r


class Ctx(object):
    def __init__(self, trail, prover, name=""):
        self.trail = trail          # list of [choice, n_alternatives_left]
        self.pos = 0
        self.pc = []                # hypotheses of the current path
        self.prover = prover
        self.obligations = []
        self.name = name
        self.frames = []            # active generic elements of loops and comprehensions (instrument.Frame)
        self.guards = []            # active bodies of loops with declared invariants (instrument.Guard)
        self.notes = set()
        self.whole = None            # all hypotheses of the path, while an obligation is stated from some of them
        self.internal = 0           # > 0: obligations state loop invariants (means of proof), not the property itself

    def fact(self, name, f):
        """Assume f(args, app) for every application of the symbol `name` (a universally quantified precondition)."""
        self.prover.facts.setdefault(name, []).append(f)

    def assume(self, *ts):
        for t in ts:
            t = T.lift(t)
            if t is T.FALSE: raise Infeasible()
            self.pc.append(t)

    def decide(self, c):
        if c is T.TRUE: return True
        if c is T.FALSE: return False
        if self.frames: return self.frames[-1].decide(c)
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
            self.pos += 1
            forced = self.trail[self.pos - 1][2]
            if not forced: self.pc.append(c if v else T.not_(c))
            return v
        d = self.prover.implied(self.pc, c)
        if d is None and any(t.op == "sum" for t in T.subterms(c)):
            c2 = self.prover.simp(self.pc, c)
            if c2 is not c: d = self.prover.implied(self.pc, c2)
        if d is not None:
            self.trail.append([d, 0, True])
            self.pos += 1
            return d
        if len(self.trail) > 4000: raise Budget("too many branches on one path")
        self.trail.append([True, 1, False])
        self.pos += 1
        self.pc.append(c)
        return True

    def unique_int(self, t):
        r, m = smt.check(relevant(self.pc), None, 2000, want_model=True)
        if r != "refuted": return None
        L = smt.Lower()
        try:
            v = m.eval(L(t), model_completion=True).as_long()
        except Exception:
            return None
        if self.prover.implied(self.pc, T.eq(t, T.const(v))) is True: return v
        return None

    def oblige(self, name, goal, extra=()):
        """State an obligation on the current path."""
        goal = T.lift(goal)
        t0 = time.time()
        hyps = self.pc + [T.lift(e) for e in extra]
        s, b, d = self.prover.prove(hyps, goal)
        if s != "valid" and self.whole is not None:       # (stated from some hypotheses of the path only: the others decide)
            hyps = hyps + [h for h in self.whole if not any(h is x for x in hyps)]
            s, b, d = self.prover.prove(hyps, goal)
        if s != "valid":
            # a solver model interprets fn/sum/div atoms freely: only a concretely evaluated assignment refutes
            w = None if self.internal or opaque(goal) else refute.search(self.prover.inst(hyps, goal), goal, facts=self.prover.facts)
            if w is not None: s, d = "refuted", {"solver": d, "counterexample": w}
            else: s, d = "unknown", {"solver": "%s %s" % (s, d)}
        self.obligations.append(Obligation(self.name + ":" + name, s, b, d, time.time() - t0, None))
        if s != "valid":
            self.prover.failed += 1
            if self.prover.failed >= MAX_FAILED: raise Budget("%d obligations of this harness failed, the rest was not attempted" % self.prover.failed)
        return s == "valid"


def opaque(t):
    """Does t mention an array piece that was not resolved (its value is defined elsewhere)?"""
    return any(s.op == "app" and s.args[0].startswith(("piece!", "hidden!")) for s in T.subterms(t))


def truncation(a, t):
    """int(x) of a real number x."""
    x, r = a[0], T.toreal(t)
    pos = T.le(T.real(0), x)
    return T.and_(T.implies(pos, T.and_(T.le(T.real(0), r), T.le(r, x), T.lt(x, r + 1))), T.implies(T.not_(pos), T.and_(T.le(r, T.real(0)), T.le(x, r), T.lt(r - 1, x))))


def rounding(a, t):
    x, r = a[0], T.toreal(t)
    return T.and_(T.le(r + r, x + x + 1), T.le(x + x, r + r + 1))


def flooring(a, t):
    x, r = a[0], T.toreal(t)
    return T.and_(T.le(r, x), T.lt(x, r + 1))


class CodeError(Exception):
    """The code under verification raises on an input that satisfies the precondition."""

    def __init__(self, msg, trace=""):
        Exception.__init__(self, msg)
        self.trace = trace


def call(f, *a, **k):
    """Call the real code; a Python exception it raises is a failed obligation, not an engine error."""
    try:
        return f(*a, **k)
    except (T.Unsupported, Infeasible, CodeError, PathEnd):
        raise
    except RecursionError as e:
        raise T.Unsupported("recursion")
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        here = __file__.rsplit("/", 1)[0]
        real = (IndexError, ValueError, ZeroDivisionError, KeyError, NameError, AssertionError)
        if not isinstance(e, real) or tb and tb[-1].filename.startswith(here) and isinstance(e, (KeyError, NameError, AssertionError)):
            raise T.Unsupported("model gap: %s: %s (%s:%s)" % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno))
        raise CodeError("%s: %s" % (type(e).__name__, e), traceback.format_exc())


MAX_FAILED = 8


def explore(name, harness, prover=None, max_paths=400, notes=None, sink=None):
    """Run `harness(ctx)` on every feasible path.  Returns (obligations, n_paths); `sink` receives the obligations of an
    exploration that does not complete."""
    prover = prover or Prover()
    trail, n = [], 0
    obs = [] if sink is None else sink
    while True:
        c = Ctx([list(x) for x in trail], prover, name)
        prover.facts, prover.segs, prover.hints = {"trunc": [truncation], "round": [rounding], "floor": [flooring]}, {}, []
        _stack.append(c)
        try:
            harness(c)
            if c.frames: raise T.Unsupported("a symbolic loop was left early")
            n += 1
            if n == 1 and not prover.feasible(c.pc): raise RuntimeError("vacuous: first path has a contradictory condition")
            obs.extend(c.obligations)
        except Infeasible:
            pass
        except PathEnd:
            n += 1
            obs.extend(c.obligations)
        except T.Unsupported:
            obs.extend(c.obligations)
            raise
        except CodeError as e:
            n += 1
            obs.extend(c.obligations)
            feas = smt.check(prover.inst(c.pc), None, prover.timeout)[0]
            obs.append(Obligation(name + ":no-exception", "refuted" if feas == "refuted" else ("valid" if feas == "valid" else "unknown"),
                                  "z3", {"exception": str(e), "trace": e.trace[-1500:]}, 0.0, None))
        finally:
            _stack.pop()
        if notes is not None: notes.extend(x for x in c.notes if x not in notes)
        trail = c.trail[:max(c.pos, 0)]
        while trail and trail[-1][1] == 0: trail.pop()
        if not trail: break
        trail[-1] = [not trail[-1][0], 0, False]
        if n > max_paths: raise Budget("more than %d paths" % max_paths)
    return obs, n
