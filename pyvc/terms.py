"""Term language of the verifier: hash-consed symbolic terms with Python operator overloading.

Sorts: 'R' (real), 'I' (mathematical integer), 'B' (boolean).  The real code runs on these objects under CPython; a
branch on a symbolic boolean asks the active `Ctx` for a decision (see ctx.py).  Machine floats are treated as reals and
machine integers as unbounded integers: both are recorded as assumptions of every proof.
"""
import numpy
from fractions import Fraction

_table = {}
_count = [0]


class Unsupported(Exception):
    """A construct outside the verified subset: the function falls back to its bounded check."""


class Term(object):
    __slots__ = ("op", "args", "sort", "id", "__weakref__")

    # identity ---------------------------------------------------------------------------------------------------
    def __hash__(self):
        return self.id

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # arithmetic -------------------------------------------------------------------------------------------------
    def __add__(self, o): return _num2(add, self, o)
    def __radd__(self, o): return _num2(add, o, self)
    def __sub__(self, o): return _num2(sub, self, o)
    def __rsub__(self, o): return _num2(sub, o, self)
    def __mul__(self, o): return _num2(mul, self, o)
    def __rmul__(self, o): return _num2(mul, o, self)
    def __truediv__(self, o): return _num2(div, self, o)
    def __rtruediv__(self, o): return _num2(div, o, self)
    def __floordiv__(self, o): return _num2(idiv, self, o)
    def __rfloordiv__(self, o): return _num2(idiv, o, self)
    def __mod__(self, o): return _num2(imod, self, o)
    def __rmod__(self, o): return _num2(imod, o, self)
    def __neg__(self): return mul(const(-1), self)
    def __pos__(self): return self
    def __abs__(self): return ite(ge(self, const(0)), self, -self)
    def __pow__(self, o): return _num2(power, self, o)
    def __rpow__(self, o): return _num2(power, o, self)

    # comparison -------------------------------------------------------------------------------------------------
    def __eq__(self, o):
        if self is o: return TRUE
        if not liftable(o): return NotImplemented if not is_plain_foreign(o) else False
        return eq(self, lift(o))

    def __ne__(self, o):
        if self is o: return FALSE
        if not liftable(o): return NotImplemented if not is_plain_foreign(o) else True
        return not_(eq(self, lift(o)))

    def __lt__(self, o): return _cmp(lt, self, o)
    def __le__(self, o): return _cmp(le, self, o)
    def __gt__(self, o): return _cmp(lambda a, b: lt(b, a), self, o)
    def __ge__(self, o): return _cmp(lambda a, b: le(b, a), self, o)
    def __and__(self, o): return and_(boolify(self), boolify(o))
    def __rand__(self, o): return and_(boolify(o), boolify(self))
    def __or__(self, o): return or_(boolify(self), boolify(o))
    def __ror__(self, o): return or_(boolify(o), boolify(self))
    def __invert__(self): return not_(boolify(self))

    # control ----------------------------------------------------------------------------------------------------
    def __bool__(self):
        if self.op == "const":
            return bool(self.args[0])
        from . import ctx
        return ctx.current().decide(boolify(self))

    def __index__(self):
        if self.op == "const" and (isinstance(self.args[0], int) or self.args[0].denominator == 1):
            return int(self.args[0])
        from . import ctx
        v = ctx.current().unique_int(self)
        if v is None:
            raise Unsupported("symbolic integer used where CPython needs a concrete index: %s" % show(self))
        return v

    def __ceil__(self):
        if self.sort == "I": return self
        if is_integral(self): return to_int(self)
        raise Unsupported("ceil of a real number")

    __floor__ = __ceil__

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if self.op == "const":
            return float(self.args[0])
        raise Unsupported("float() of a symbolic value")

    def astype(self, *a, **k):
        return self

    def copy(self): return self
    def __getitem__(self, k): raise Unsupported("subscript of a scalar")

    def __getattr__(self, name):
        if name.startswith("_") or not hasattr(numpy.float64, name): raise AttributeError(name)
        raise Unsupported("numpy scalar's " + name)

    def __repr__(self):
        return show(self)


def is_plain_foreign(o):
    return o is None or isinstance(o, (str, list, tuple, dict, type))


def liftable(o):
    import numpy
    return isinstance(o, (Term, int, float, Fraction, bool, numpy.integer, numpy.floating, numpy.bool_))


def lift(o):
    import numpy
    if isinstance(o, Term): return o
    if isinstance(o, (bool, numpy.bool_)): return TRUE if o else FALSE
    if isinstance(o, (int, numpy.integer)): return const(int(o))
    if isinstance(o, Fraction): return const(o)
    if isinstance(o, (float, numpy.floating)):
        f = float(o)
        if f != f:
            return NAN
        if f in (float("inf"), float("-inf")):
            raise Unsupported("infinite constant")
        return real(Fraction(repr(f)))       # decimal value of the literal
    raise Unsupported("cannot lift %r" % (type(o),))


def boolify(t):
    t = lift(t)
    if t.sort == "B": return t
    return not_(eq(t, const(0)))


def _num2(f, a, b):
    if not (liftable(a) and liftable(b)):
        return NotImplemented
    a, b = lift(a), lift(b)
    if a.sort == "B": a = ite(a, const(1), const(0))
    if b.sort == "B": b = ite(b, const(1), const(0))
    return f(a, b)


def _cmp(f, a, b):
    if not (liftable(a) and liftable(b)):
        return NotImplemented
    return f(lift(a), lift(b))


def mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, Term) else ("#", type(a).__name__, a) for a in args), sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, tuple(args), sort
        _count[0] += 1
        t.id = _count[0]
        _table[key] = t
    return t


def const(v):
    if isinstance(v, bool): return TRUE if v else FALSE
    if isinstance(v, int): return mk("const", (v,), "I")
    v = Fraction(v)
    return mk("const", (v,), "R")


def real(v):
    return mk("const", (Fraction(v),), "R")


TRUE = mk("const", (True,), "B")
FALSE = mk("const", (False,), "B")
NAN = mk("sym", ("nan",), "R")
_fresh = [0]


def sym(name, sort="R"):
    return mk("sym", (name,), sort)


def fresh(name, sort="R"):
    _fresh[0] += 1
    return sym("%s!%d" % (name, _fresh[0]), sort)


def app(f, args, sort="R"):
    return mk("app", (f,) + tuple(lift(a) for a in args), sort)


def is_const(t, v=None):
    if not isinstance(t, Term): t = lift(t)
    return t.op == "const" and t.sort != "B" and (v is None or t.args[0] == v)


def nsort(*ts):
    return "I" if all(t.sort == "I" for t in ts) else "R"


def _cv(v, sort):
    return const(int(v)) if sort == "I" else real(v)


def add(a, b):
    s = nsort(a, b)
    if a.op == "const" and b.op == "const": return _cv(a.args[0] + b.args[0], s)
    if is_const(a, 0) and b.sort == s: return b
    if is_const(b, 0) and a.sort == s: return a
    # flatten with linear collection for integers
    items = (list(a.args) if a.op == "add" else [a]) + (list(b.args) if b.op == "add" else [b])
    coef, order, c = {}, [], 0
    for t in items:
        if t.op == "const":
            c += t.args[0]
            continue
        k, base = 1, t
        if t.op == "mul" and t.args[0].op == "const":
            k = t.args[0].args[0]
            base = t.args[1] if len(t.args) == 2 else mk("mul", t.args[1:], nsort(*t.args[1:]))
        if base not in coef:
            coef[base] = 0
            order.append(base)
        coef[base] += k
    order.sort(key=lambda t: t.id)
    out = []
    for base in order:
        k = coef[base]
        if k == 0: continue
        out.append(base if k == 1 else mul(_cv(k, "I" if isinstance(k, int) or Fraction(k).denominator == 1 else "R"), base))
    if c != 0 or not out:
        out.append(_cv(c, s if not out else ("I" if Fraction(c).denominator == 1 and s == "I" else "R")))
    if len(out) == 1: return out[0]
    return mk("add", out, s)


def sub(a, b):
    return add(a, mul(const(-1), b))


def mul(a, b):
    s = nsort(a, b)
    if a.op == "const" and b.op == "const": return _cv(a.args[0] * b.args[0], s)
    if is_const(a, 0) or is_const(b, 0): return _cv(0, s)
    if is_const(a, 1): return b
    if is_const(b, 1): return a
    if b.op == "const": a, b = b, a
    if a.op == "const" and b.op == "add":
        r = mul(a, b.args[0])
        for t in b.args[1:]:
            r = add(r, mul(a, t))
        return r
    items = (list(a.args) if a.op == "mul" else [a]) + (list(b.args) if b.op == "mul" else [b])
    c, rest, fired = 1, [], False
    for t in items:
        if t.op == "const": c *= t.args[0]
        elif t.op == "fn" and t.args[0] == "sqrt" and any(t is x for x in rest) and nonneg(t.args[1]):
            del rest[[t is x for x in rest].index(True)]               # sqrt(u)^2 = u for u >= 0
            rest += list(t.args[1].args) if t.args[1].op == "mul" else [t.args[1]]
            fired = True
        else: rest.append(t)
    if fired and any(t.op in ("const", "add") for t in rest):
        r = _cv(1, s)
        for t in rest: r = mul(r, t)
        return mul(_cv(c, s), r)
    rest.sort(key=lambda t: t.id)
    if c == 0: return _cv(0, s)
    if c != 1: rest.insert(0, _cv(c, "I" if Fraction(c).denominator == 1 else "R"))
    if not rest: return _cv(1, s)
    if len(rest) == 1: return rest[0]
    return mk("mul", rest, s)


def nonneg(t):
    """Is t >= 0 by its form: sums of squares and the like?"""
    if t.op == "const": return t.args[0] >= 0
    if t.op == "mul":
        n = {}
        for a in t.args: n[a] = n.get(a, 0) + 1
        return all(k % 2 == 0 or nonneg(a) for a, k in n.items())
    if t.op == "add": return all(nonneg(a) for a in t.args)
    if t.op == "sum": return nonneg(t.args[3])
    if t.op == "div": return nonneg(t.args[0]) and nonneg(t.args[1])
    if t.op == "fn": return t.args[0] in ("sqrt", "exp")
    if t.op == "toreal": return nonneg(t.args[0])
    if t.op == "ite": return nonneg(t.args[1]) and nonneg(t.args[2])
    return False


def div(a, b):
    if b.op == "const":
        if b.args[0] == 0:
            raise ZeroDivisionError("symbolic division by constant zero")
        if a.op == "const": return real(Fraction(a.args[0]) / Fraction(b.args[0]))
        if b.args[0] == 1: return toreal(a)
        return mul(real(1 / Fraction(b.args[0])), a)
    if a.op == "const" and a.args[0] == 0: return real(0)
    return mk("div", (a, b), "R")


def toreal(a):
    if a.sort == "I":
        if a.op == "const": return real(a.args[0])
        return mk("toreal", (a,), "R")
    return a


def idiv(a, b):
    if a.sort == "I" and b.sort == "I":
        if b.op == "const" and b.args[0] == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if b.op != "const" or b.args[0] < 0: raise Unsupported("division by a possibly negative integer")
        if a.op == "const": return const(int(a.args[0] // b.args[0]))
        return mk("idiv", (a, b), "I")
    raise Unsupported("floor division of reals")


def imod(a, b):
    if a.sort == "I" and b.sort == "I":
        if b.op == "const" and b.args[0] == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if b.op != "const" or b.args[0] < 0: raise Unsupported("division by a possibly negative integer")
        if a.op == "const": return const(int(a.args[0] % b.args[0]))
        return mk("imod", (a, b), "I")
    raise Unsupported("modulo of reals")


def power(a, b):
    if b.op == "const":
        e = Fraction(b.args[0])
        if e.denominator == 1:
            n = int(e)
            if n == 0: return _cv(1, a.sort)
            if n > 0 and n <= 8:
                r = a
                for _ in range(n - 1): r = mul(r, a)
                return r
            if n < 0:
                return div(const(1), power(a, const(-n)))
        if e == Fraction(1, 2): return fn("sqrt", a)
        if e == Fraction(-1, 2): return div(const(1), fn("sqrt", a))
    return mk("fn", ("pow", toreal(a), toreal(b)), "R")


def fn(name, *a):
    a = tuple(toreal(lift(x)) for x in a)
    if name == "exp" and is_const(a[0], 0): return real(1)
    if name == "sqrt" and a[0].op == "const":
        f = a[0].args[0]
        import math
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator: return real(Fraction(n, d))
    return mk("fn", (name,) + a, "R")


def lt(a, b):
    if a is b: return FALSE
    if a.op == "const" and b.op == "const": return TRUE if a.args[0] < b.args[0] else FALSE
    if a.sort == "I" and b.sort == "I":
        d = sub(b, a)
        if d.op == "const": return TRUE if d.args[0] > 0 else FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    if a is b: return TRUE
    if a.op == "const" and b.op == "const": return TRUE if a.args[0] <= b.args[0] else FALSE
    if a.sort == "I" and b.sort == "I":
        d = sub(b, a)
        if d.op == "const": return TRUE if d.args[0] >= 0 else FALSE
    return mk("le", (a, b), "B")


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b: return TRUE
    if a.sort == "B" or b.sort == "B":
        a, b = boolify(a), boolify(b)
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return mk("iff", (a, b), "B")
    if a.op == "const" and b.op == "const": return TRUE if a.args[0] == b.args[0] else FALSE
    d = sub(a, b)
    if d.op == "const": return TRUE if d.args[0] == 0 else FALSE
    if a.id > b.id: a, b = b, a
    return mk("eq", (a, b), "B")


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "lt": return le(a.args[1], a.args[0])
    if a.op == "le": return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.args if x.op == "and" else (x,)):
            if not any(y is z for z in out): out.append(y)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", out, "B")


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        for y in (x.args if x.op == "or" else (x,)):
            if not any(y is z for z in out): out.append(y)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", out, "B")


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    s = a.sort if a.sort == b.sort else "R"
    if s == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if s == "R": a, b = toreal(a), toreal(b)
    return mk("ite", (c, a, b), s)


def sum_(var, lo, hi, body):
    """sum over lo <= var < hi of body (var: integer symbol)."""
    lo, hi, body = lift(lo), lift(hi), lift(body)
    zero = const(0) if body.sort == "I" else real(0)
    if body.op == "const" and body.args[0] == 0: return zero
    if lo.op == "const" and hi.op == "const" and hi.args[0] - lo.args[0] <= 12:
        r = zero
        for k in range(lo.args[0], hi.args[0]):
            r = add(r, subst(body, {var: const(k)}))
        return r
    gap = sub(hi, lo)
    if gap.op == "const" and gap.args[0] <= 12:
        r = zero
        for k in range(gap.args[0]): r = add(r, subst(body, {var: add(lo, const(k))}))
        return r
    # canonical bound variable so that equal sums are the same term
    if var.args[0].startswith("#"):         # (rebuilt sum: its own variable does not count)
        v2 = sym("@" + var.args[0], "I")
        body, var = subst(body, {var: v2}), v2
    depth = max_bound(body) + 1
    bv = sym("#%d" % depth, "I")
    return mk("sum", (bv, lo, hi, subst(body, {var: bv})), body.sort if body.sort == "I" else "R")


_mb = {}


def max_bound(t):
    r = _mb.get(t)
    if r is None:
        if t.op == "sym":
            r = int(t.args[0][1:]) if isinstance(t.args[0], str) and t.args[0].startswith("#") else 0
        else:
            r = max([0] + [max_bound(a) for a in t.args if isinstance(a, Term)])
        _mb[t] = r
    return r


_rebuild = {
    "add": lambda a: _fold(add, a), "mul": lambda a: _fold(mul, a), "div": lambda a: div(*a),
    "toreal": lambda a: toreal(*a), "idiv": lambda a: idiv(*a), "imod": lambda a: imod(*a),
    "lt": lambda a: lt(*a), "le": lambda a: le(*a), "eq": lambda a: eq(*a), "iff": lambda a: eq(*a),
    "not": lambda a: not_(*a), "and": lambda a: and_(*a), "or": lambda a: or_(*a), "ite": lambda a: ite(*a),
}


def _fold(f, a):
    r = a[0]
    for x in a[1:]: r = f(r, x)
    return r


def rebuild(t, args):
    if t.op in _rebuild: return _rebuild[t.op](args)
    if t.op == "fn":
        if args[0] == "pow": return power(args[1], args[2])
        return fn(*args)
    if t.op == "app": return app(args[0], args[1:], t.sort)
    if t.op == "sum": return sum_(args[0], args[1], args[2], args[3])
    return mk(t.op, args, t.sort)


def subst(t, m, memo=None):
    """Replace terms (keys of m, compared by identity) in t; bound variables are renamed where they would capture."""
    return _subst(t, m, {} if memo is None else memo, None)


def _subst(t, m, memo, incoming):
    r = m.get(t)
    if r is not None: return r
    r = memo.get(t)
    if r is not None: return r
    if t.op in ("const", "sym"): return t
    if t.op == "sum":
        bv = t.args[0]
        if incoming is None:
            # (a key that mentions the bound variable itself asks for the replacement under the binder)
            incoming = frozenset(x for k, v in m.items() for x in syms(v) if isinstance(x.args[0], str) and x.args[0][:1] in "#@" and x not in syms(k))
        if bv in m or bv in incoming:
            f = fresh("@c", "I")
            body = _subst(_subst(t.args[3], {bv: f}, {}, frozenset()), {k: v for k, v in m.items() if k is not bv}, {}, incoming)
            r = sum_(f, _subst(t.args[1], m, memo, incoming), _subst(t.args[2], m, memo, incoming), body)
            memo[t] = r
            return r
    args, ch = [], False
    for a in t.args:
        if isinstance(a, Term):
            b = _subst(a, m, memo, incoming)
            ch = ch or b is not a
            args.append(b)
        else:
            args.append(a)
    r = t if not ch else rebuild(t, args)
    memo[t] = r
    return r


def syms(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t in seen: return acc
    seen.add(t)
    if t.op == "sym": acc.add(t)
    for a in t.args:
        if isinstance(a, Term): syms(a, acc, seen)
    return acc


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    if t in seen: return seen
    seen[t] = True
    for a in t.args:
        if isinstance(a, Term): subterms(a, seen)
    return seen


def diff(t, x, memo=None):
    """Symbolic partial derivative of t with respect to the atom x (sym or app)."""
    if memo is None: memo = {}
    if t is x: return real(1)
    if t in memo: return memo[t]
    op = t.op
    if op in ("const", "sym", "toreal"): r = real(0)
    elif op == "app":
        r = real(0)
        for a in t.args[1:]:
            if not is_const(diff(a, x, memo), 0): raise Unsupported("derivative through an uninterpreted function")
    elif op == "add": r = _fold(add, [diff(a, x, memo) for a in t.args])
    elif op == "mul":
        r = real(0)
        for i, a in enumerate(t.args):
            d = diff(a, x, memo)
            if is_const(d, 0): continue
            r = add(r, _fold(mul, [d] + [b for j, b in enumerate(t.args) if j != i]))
    elif op == "div":
        a, b = t.args
        da, db = diff(a, x, memo), diff(b, x, memo)
        r = div(da, b)
        if not is_const(db, 0): r = sub(r, div(mul(a, db), mul(b, b)))
    elif op == "ite": r = ite(t.args[0], diff(t.args[1], x, memo), diff(t.args[2], x, memo))
    elif op == "sum":
        r = sum_(t.args[0], t.args[1], t.args[2], diff(t.args[3], x, memo))
    elif op == "fn":
        f, u = t.args[0], t.args[1]
        du = diff(u, x, memo)
        if is_const(du, 0) and (f != "pow"): r = real(0)
        elif f == "exp": r = mul(t, du)
        elif f == "cos": r = mul(mul(const(-1), fn("sin", u)), du)
        elif f == "sin": r = mul(fn("cos", u), du)
        elif f == "sqrt": r = div(du, mul(const(2), t))
        elif f == "log": r = div(du, u)
        else: raise Unsupported("derivative of " + f)
    else:
        raise Unsupported("derivative of " + op)
    memo[t] = r
    return r


def show(t, depth=0):
    if not isinstance(t, Term): return repr(t)
    if depth > 12: return "..."
    a = t.args
    d = depth + 1
    if t.op == "const":
        v = a[0]
        if isinstance(v, Fraction) and v.denominator != 1: return "%.9g" % float(v)
        return str(v)
    if t.op == "sym": return a[0]
    if t.op == "app": return "%s(%s)" % (a[0], ",".join(show(x, d) for x in a[1:]))
    if t.op == "fn": return "%s(%s)" % (a[0], ",".join(show(x, d) for x in a[1:]))
    if t.op == "sum": return "SUM{%s in %s..%s}(%s)" % tuple(show(x, d) for x in a)
    s = {"add": " + ", "mul": "*", "div": "/", "lt": " < ", "le": " <= ", "eq": " == ", "and": " & ", "or": " | ",
         "iff": " <=> ", "idiv": "//", "imod": "%"}.get(t.op)
    if s: return "(" + s.join(show(x, d) for x in a) + ")"
    if t.op == "toreal": return show(a[0], d)
    return "%s(%s)" % (t.op, ", ".join(show(x, d) for x in a))


# ---------------------------------------------------------------------------------------------------------------------
# exact evaluation under an assignment (for counterexamples and self-tests)
def evaluate(t, env, memo=None):
    """env: dict from sym/app terms to numbers (Fraction/float/bool); app terms fall back to a callable env['__app__']."""
    import math
    if memo is None: memo = {}
    if t in memo: return memo[t]
    if t in env: return env[t]
    a = t.args
    ev = lambda x: evaluate(x, env, memo)
    op = t.op
    if op == "const": r = a[0]
    elif op == "add": r = sum(ev(x) for x in a)
    elif op == "mul":
        r = 1
        for x in a: r = r * ev(x)
    elif op == "div": r = Fraction(ev(a[0])) / Fraction(ev(a[1])) if not isinstance(ev(a[0]), float) and not isinstance(ev(a[1]), float) else ev(a[0]) / ev(a[1])
    elif op == "toreal": r = ev(a[0])
    elif op == "idiv": r = ev(a[0]) // ev(a[1])
    elif op == "imod": r = ev(a[0]) % ev(a[1])
    elif op == "lt": r = ev(a[0]) < ev(a[1])
    elif op == "le": r = ev(a[0]) <= ev(a[1])
    elif op in ("eq", "iff"): r = ev(a[0]) == ev(a[1])
    elif op == "not": r = not ev(a[0])
    elif op == "and": r = all(ev(x) for x in a)
    elif op == "or": r = any(ev(x) for x in a)
    elif op == "ite": r = ev(a[1]) if ev(a[0]) else ev(a[2])
    elif op == "fn":
        xs = [float(ev(x)) for x in a[1:]]
        r = {"exp": math.exp, "cos": math.cos, "sin": math.sin, "sqrt": math.sqrt, "log": math.log,
             "pow": math.pow}[a[0]](*xs)
    elif op == "app" and a[0] in ("min_of", "max_of", "imin_of", "imax_of") and len(a) == 2 and a[1].op == "sum" and a[1].args[3].op == "app" and a[1].args[3].args[0] == "elt":
        s, xs = a[1], []
        for k in range(int(ev(s.args[1])), int(ev(s.args[2]))):
            e = dict(env); e[s.args[0]] = k
            xs.append(evaluate(s.args[3].args[1], e))
        if not xs: raise KeyError("least or greatest of nothing")
        r = (min if "min" in a[0] else max)(xs)
    elif op == "app": r = env["__app__"](a[0], [ev(x) for x in a[1:]], t.sort)
    elif op == "sum":
        r = 0
        for k in range(int(ev(a[1])), int(ev(a[2]))):
            e = dict(env); e[a[0]] = k
            r += evaluate(a[3], e)
    else:
        raise KeyError("no value for %s" % show(t))
    memo[t] = r
    return r


def is_integral(t):
    """Syntactically integer-valued real term."""
    if t.sort == "I": return True
    if t.op == "const": return Fraction(t.args[0]).denominator == 1
    if t.op == "toreal": return True
    if t.op in ("add", "mul"): return all(is_integral(a) for a in t.args)
    if t.op == "ite": return is_integral(t.args[1]) and is_integral(t.args[2])
    return False


def to_int(t):
    if t.sort == "I": return t
    if t.op == "const": return const(int(t.args[0]))
    if t.op == "toreal": return t.args[0]
    if t.op == "add": return _fold(add, [to_int(a) for a in t.args])
    if t.op == "mul": return _fold(mul, [to_int(a) for a in t.args])
    if t.op == "ite": return ite(t.args[0], to_int(t.args[1]), to_int(t.args[2]))
    raise Unsupported("to_int")


_fb = {}


def free_bound(t):
    """Bound-variable symbols that occur free in t (t is a piece of a sum's body)."""
    r = _fb.get(t)
    if r is None:
        if t.op == "sym": r = frozenset([t]) if isinstance(t.args[0], str) and t.args[0].startswith("#") else frozenset()
        elif t.op == "sum": r = free_bound(t.args[1]) | free_bound(t.args[2]) | (free_bound(t.args[3]) - {t.args[0]})
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, Term): r = r | free_bound(a)
        _fb[t] = r
    return r
