"""Lowering of terms to z3, with cvc5 (binary) as second back end."""
import subprocess, time
import z3
from . import terms as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}
SORT = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}


class Lower(object):
    def __init__(self):
        self.memo = {}
        self.side = []          # defining facts of transcendental atoms

    def __call__(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        op, a = t.op, t.args
        L = self
        if op == "const":
            if t.sort == "B": r = z3.BoolVal(a[0])
            elif t.sort == "I": r = z3.IntVal(a[0])
            else: r = z3.RealVal(str(a[0]))
        elif op == "sym": r = z3.Const(a[0], SORT[t.sort])
        elif op == "app":
            xs = [L(x) for x in a[1:]]
            name = "%s/%s" % (a[0], "".join(x.sort for x in a[1:]))
            r = z3.Function(name, *([SORT[x.sort] for x in a[1:]] + [SORT[t.sort]]))(*xs) if xs else z3.Const(name, SORT[t.sort])
        elif op == "add": r = z3.Sum(*[self.num(x, t.sort) for x in a])
        elif op == "mul": r = z3.Product(*[self.num(x, t.sort) for x in a])
        elif op == "div": r = self.num(a[0], "R") / self.num(a[1], "R")
        elif op == "toreal": r = z3.ToReal(L(a[0]))
        elif op == "idiv":
            x, y = L(a[0]), L(a[1])
            r = z3.If(y > 0, x / y, (-x) / (-y))       # Python floor division
        elif op == "imod":
            x, y = L(a[0]), L(a[1])
            r = z3.If(y > 0, x % y, -((-x) % (-y)))
        elif op in ("lt", "le", "eq"):
            s = T.nsort(*a)
            x, y = self.num(a[0], s), self.num(a[1], s)
            r = x < y if op == "lt" else (x <= y if op == "le" else x == y)
        elif op == "iff": r = L(a[0]) == L(a[1])
        elif op == "not": r = z3.Not(L(a[0]))
        elif op == "and": r = z3.And(*[L(x) for x in a])
        elif op == "or": r = z3.Or(*[L(x) for x in a])
        elif op == "ite":
            r = z3.If(L(a[0]), self.num(a[1], t.sort), self.num(a[2], t.sort))
        elif op == "fn":
            xs = [L(x) for x in a[1:]]
            r = z3.Function("fn_" + a[0], *([z3.RealSort()] * (len(xs) + 1)))(*xs)
            if a[0] == "exp": self.side.append(r > 0)
            if a[0] == "sqrt": self.side.append(z3.Implies(xs[0] >= 0, z3.And(r >= 0, r * r == xs[0])))
        elif op == "sum":
            r = z3.Const("sum_%d" % t.id, SORT[t.sort])
        elif op == "forall":
            b = L(a[0])
            r = z3.ForAll([b], L(a[1]))
        else:
            raise T.Unsupported("cannot lower " + op)
        self.memo[t] = r
        return r

    def num(self, t, sort):
        x = self(t)
        if sort == "R" and t.sort == "I": return z3.ToReal(x)
        return x


def check(hyps, goal=None, timeout=4000, want_model=False):
    """Is (and hyps) & not goal unsatisfiable?  Returns ('valid'|'refuted'|'unknown', model)."""
    L = Lower()
    s = z3.Solver()
    s.set("timeout", timeout)
    fs = [L(h) for h in hyps]
    if goal is not None: fs.append(z3.Not(L(goal)))
    for f in fs: s.add(f)
    for f in L.side: s.add(f)
    t0 = time.time()
    r = s.check()
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat: return "valid", None
    if r == z3.sat: return "refuted", (s.model() if want_model else None)
    return "unknown", s


def check_cvc5(solver, timeout=4000):
    t0 = time.time()
    try:
        import shutil
        exe = shutil.which("cvc5")
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        p = subprocess.run([exe, "--lang=smt2", "--tlimit=%d" % timeout, "-"], input=txt.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout / 1000.0 + 5)
        out = p.stdout.decode()
    except Exception:
        out = ""
    STATS["cvc5_calls"] += 1
    STATS["cvc5_time"] += time.time() - t0
    if out.startswith("unsat"): return "valid"
    if out.startswith("sat"): return "refuted"
    return "unknown"


def prove(hyps, goal, timeout=4000, use_cvc5=True):
    """('valid', backend) | ('refuted', model-string) | ('unknown', None)"""
    r, m = check(hyps, goal, timeout, want_model=True)
    if r == "valid": return "valid", "z3"
    if r == "refuted": return "refuted", str(m)[:2000]
    if use_cvc5:
        c = check_cvc5(m, timeout)
        if c == "valid": return "valid", "cvc5"
        if c == "refuted": return "refuted", "cvc5 model"
    return "unknown", None
