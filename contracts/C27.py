"""Inner solvers (LSMR, MINRES): what they report of an iterate is true of it, for every operator and right-hand side.

The real `solve` methods run on abstract vectors: formal linear combinations of named directions, with real-number
coefficients that are terms.  The operator is any linear operator with its adjoint (MINRES: any self-adjoint one); inner
products are bilinear.  When the code takes the norm of a new vector, the vector is shown to be orthogonal to every earlier
direction (an obligation, for an arbitrary earlier one) and its unit vector becomes a new direction.  The loops carry declared
invariants: the position of every vector the recurrences keep, under the operator and its adjoint (see DESIGN.md).  The
rotations are replaced by the contract of `symOrtho`, which is proved of the real function."""
import ast, types
from pyvc import terms as T, ctx, instrument, poly
from pyvc.instrument import Declared
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M

PK = M.GP + "harmonisation_eiv."
TRUSTED = ["operator: `A * v` is linear and `A.H` is its adjoint (MINRES: A is self-adjoint), without side effects",
           "numpy dot, norm, zeros, copy and the in-place operations of vectors: those of a real inner product space",
           "pykrylov_tools_utils.check_symmetric: accepts a self-adjoint operator (run time only); machine_epsilon: a small positive number",
           "`if test: name = value` of the two solvers is executed as a conditional expression (the test and the value have no effects)"]
ASSUMPTIONS = ["exact real arithmetic: loss of orthogonality in floating point is covered at run time only", "no damping, preconditioner or shift (as the Gauss-Newton algorithm calls the solvers)",
               "MINRES: the diagonal of the triangular factor is at least machine epsilon (nonsingular operator)", "contents of the direct error window arbitrary: the rule behind reason 8 / 10 is not specified",
               "tolerances are not negative; LSMR: the diagonal of the triangular factor is below 1e100"]


# ---- merging of `if test: name = value` -------------------------------------------------------------------------------
class Select(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        parts = [node.body] + ([node.orelse] if node.orelse else [])
        if any(len(p) != 1 or not isinstance(p[0], ast.Assign) or len(p[0].targets) != 1 or not isinstance(p[0].targets[0], ast.Name) for p in parts): return node
        names = set(p[0].targets[0].id for p in parts)
        if len(names) != 1 or any(isinstance(x, (ast.Call, ast.Subscript, ast.BoolOp, ast.Lambda)) for y in [node.test] + [p[0].value for p in parts] for x in ast.walk(y)): return node
        nm = names.pop()
        lam = [ast.Lambda(args=instrument._args([]), body=x) for x in [p[0].value for p in parts] + [ast.Name(nm, ast.Load())]][:2]
        new = ast.Assign([ast.Name(nm, ast.Store())], ast.Call(ast.Name("__pyvc_pick__", ast.Load()), [node.test] + lam, []))
        return ast.copy_location(new, node)


def pick(test, value, old):
    if not isinstance(test, T.Term): return value() if test else old()
    try: o = old()
    except NameError: o = instrument.Poison("value before the assignment")
    if test is T.TRUE: return value()
    if test is T.FALSE: return o
    v = value()
    num = lambda x: isinstance(x, (int, float, T.Term)) and not isinstance(x, bool)
    if num(v) and num(o): return T.ite(test, lift(v), lift(o))
    if isinstance(v, (bool, T.Term)) and isinstance(o, (bool, T.Term)): return T.or_(T.and_(test, T.boolify(lift(v))), T.and_(T.not_(test), T.boolify(lift(o))))
    return v if test else o


def load(tree):
    P = M.program(tree)
    base = P.transform
    P.transform = lambda t, name: base(ast.fix_missing_locations(Select().visit(t)), name)
    P.builtins["__pyvc_pick__"] = pick
    P.builtins["abs"] = absolute
    return P, P.load(PK + "pykrylov_lsmr"), P.load(PK + "pykrylov_minres")


# ---- abstract vectors ---------------------------------------------------------------------------------------------------
class Vec(object):
    """Linear combination of directions; in-place operations change the object."""
    __pyvc_mutable__ = True
    __array_ufunc__ = None

    def __init__(self, sp, kind, co): self.sp, self.kind, self.co = sp, kind, {a: k for a, k in co.items() if not zero(k)}
    def new(self, co): return Vec(self.sp, self.kind, co)
    def copy(self): return self.new(dict(self.co))
    def squeeze(self): return self           # (a view)
    @property
    def shape(self): return (self.sp.dim[self.kind],)
    @property
    def size(self): return self.sp.dim[self.kind]
    @property
    def dtype(self): return "float64"

    def plus(self, o, k=1):
        if not isinstance(o, Vec): raise T.Unsupported("sum of a vector and a %s" % type(o).__name__)
        if o.kind != self.kind: raise ctx.CodeError("sum of a vector of the domain and one of the range")
        co = dict(self.co)
        for a, x in o.co.items():
            y = co.get(a, lift(0)) + k * x
            co[a] = y
        return self.new(co)

    def times(self, k):
        if isinstance(k, Vec) or not T.liftable(k): raise T.Unsupported("product of a vector and a %s" % type(k).__name__)
        return self.new({a: lift(k) * x for a, x in self.co.items()})

    def over(self, k):
        if isinstance(k, Vec) or not T.liftable(k): raise T.Unsupported("quotient of a vector and a %s" % type(k).__name__)
        return self.new({a: x / lift(k) for a, x in self.co.items()})
    __add__ = plus
    def __radd__(self, o): return self.copy() if not isinstance(o, Vec) and T.liftable(o) and zero(lift(o)) else self.plus(o)
    def __sub__(self, o): return self.plus(o, -1)
    def __neg__(self): return self.times(-1)
    __mul__ = __rmul__ = times
    __truediv__ = over
    def dot(self, o): return self.sp.dot(self, o)
    def conj(self): return self

    def set(self, o):
        self.co = o.co
        return self
    def __iadd__(self, o): return self.set(self.plus(o))
    def __isub__(self, o): return self.set(self.plus(o, -1))
    def __imul__(self, k): return self.set(self.times(k))
    def __itruediv__(self, k): return self.set(self.over(k))

    def __setitem__(self, k, v):
        if not (isinstance(k, slice) and k == slice(None)) or not isinstance(v, Vec): raise T.Unsupported("element of an abstract vector")
        self.co = dict(v.co)

    def __getitem__(self, k): raise T.Unsupported("element of an abstract vector")


def zero(k): return T.is_const(lift(k)) and lift(k).args[0] == 0


class Op(object):
    """The operator: `kind` is the kind of the vectors it takes."""

    def __init__(self, sp, kind, out): self.sp, self.kind, self.out = sp, kind, out
    @property
    def shape(self): return (self.sp.dim[self.out], self.sp.dim[self.kind])
    @property
    def dtype(self): return "float64"
    @property
    def H(self): return Op(self.sp, self.out, self.kind)
    T = H

    def __mul__(self, v):
        if not isinstance(v, Vec): raise T.Unsupported("operator times a %s" % type(v).__name__)
        if v.kind != self.kind: raise ctx.CodeError("operator applied to a vector of the wrong dimension")
        return self.sp.apply(v)
    __matmul__ = matvec = __call__ = dot = __mul__


class Window(object):
    """The window of the direct error estimate: arbitrary contents."""
    __pyvc_mutable__ = True
    def __setitem__(self, k, v): pass
    def __getitem__(self, k): return T.fresh("window", "R")


class Space(object):
    """Directions, their images and their inner products.

    tag[a]: the smallest of the nested spaces of earlier directions that contains a; orth[e]: the spaces the unit direction e is
    orthogonal to; table: further inner products; raw[a] = (x): a is the image of the direction x, not resolved yet."""

    def __init__(self, c, symmetric):
        self.c, self.symmetric = c, symmetric
        n, m = T.sym("n", "I"), T.sym("m", "I")
        c.assume(T.le(T.const(1), n), T.le(T.const(1), m))
        self.dim = {"R": n, "L": n if symmetric else m}
        self.tag, self.orth, self.table, self.image, self.raw, self.sub, self.kind = {}, {}, {}, {}, {}, {}, {}
        self.old, self.root, self.news, self.count, self.norms = {}, {}, [], 0, {}

    def other(self, kind): return kind if self.symmetric else {"R": "L", "L": "R"}[kind]

    def atom(self, name, kind, tag=None, unit=False, orth=()):
        self.kind[name], self.tag[name] = kind, tag
        if unit: self.table[(name, name)] = lift(1)
        self.orth[name] = set(orth)
        return Vec(self, kind, {name: lift(1)})

    def zero(self, kind): return Vec(self, kind, {})

    def resolve(self, v):
        for _ in range(40):
            todo = [a for a in v.co if a in self.sub]
            if not todo: return Vec(self, v.kind, {a: tidy(k) for a, k in v.co.items()})
            for a in todo:
                k = v.co.get(a)
                if k is None: continue          # cancelled meanwhile
                v = Vec(self, v.kind, {b: x for b, x in v.co.items() if b != a}).plus(self.sub[a], k)
        raise T.Unsupported("directions that do not resolve")

    def apply(self, v):
        v = self.resolve(v)
        out = self.zero(self.other(v.kind))
        for a, k in v.co.items(): out = out.plus(self.im(a), k)
        return self.resolve(out)

    def im(self, a):
        if a not in self.image:
            if (a, a) not in self.table: raise T.Unsupported("operator applied to a vector that is not normalised (%s)" % a)
            r = "A%s" % a
            self.image[a] = self.atom(r, self.other(self.kind[a]))
            self.raw[r] = a
        return self.image[a]

    def pair(self, a, b):
        """Inner product of two directions."""
        for x, y in ((a, b), (b, a)):
            if (x, y) in self.table: return self.table[(x, y)]
        for x, y in ((a, b), (b, a)):
            if self.tag[y] is not None and self.tag[y] in self.orth[x]: return lift(0)
        for x, y in ((a, b), (b, a)):
            if x in self.raw and y not in self.raw:
                z = self.resolve(self.im(y))
                if x in z.co: break
                return self.bilinear(Vec(self, self.kind[self.raw[x]], {self.raw[x]: lift(1)}), z)
        if a != b and (a in self.raw or b in self.raw) or a == b:
            t = T.sym("<%s,%s>" % tuple(sorted((a, b))))
            self.table[(a, b)] = t
            return t
        raise T.Unsupported("inner product of %s and %s not known" % (a, b))

    def bilinear(self, x, y):
        r = lift(0)
        for a, k in x.co.items():
            for b, l in y.co.items(): r = r + k * l * self.pair(a, b)
        return r

    def dot(self, x, y):
        if not isinstance(x, Vec) or not isinstance(y, Vec): raise T.Unsupported("inner product of something that is not a vector")
        if x.kind != y.kind: raise ctx.CodeError("inner product of vectors of different lengths")
        x, y = self.resolve(x), self.resolve(y)
        if set(x.co) == set(y.co) and all(same(self.c, x.co[a], y.co[a]) for a in x.co): return self.square(x)
        return self.bilinear(x, y)

    def square(self, w):
        raws = [a for a in w.co if a in self.raw]
        if len(raws) != 1: return self.bilinear(w, w)
        a = raws[0]
        k = w.co[a]
        rest = Vec(self, w.kind, {b: x for b, x in w.co.items() if b != a})
        self.count += 1
        nm = "e%d" % self.count
        beta = T.sym("norm%d" % self.count)
        self.c.assume(T.le(lift(0), beta))
        sq = beta * beta
        self.root[sq.id] = beta
        self.last = beta
        there = self.c.decide(T.lt(lift(0), beta))
        if there:
            self.c.internal += 1
            for o, what in self.old.get(w.kind, ()):
                identity(self.c, "new direction %d is orthogonal to %s" % (self.count, what), self.bilinear(w, self.resolve(o)), lift(0))
            self.c.internal -= 1
        if there or self.symmetric:      # (a vector of length 0 is 0 times any unit vector orthogonal to all the others, of a larger space if need be)
            e = self.atom(nm, w.kind, "new", True, self.before.get(w.kind, ()))
            self.sub[a] = (e.times(beta) - rest).over(k)
        else: self.sub[a] = rest.times(-1).over(k)
        self.news.append((w.kind, nm if there else None, beta, a))
        del self.raw[a]
        return sq

    before = {}

    def sqrt(self, t):
        t = lift(t)
        return self.root[t.id] if t.id in self.root else T.fn("sqrt", t)

    def norm(self, v, *a, **k):
        if a or k: raise T.Unsupported("norm of another kind")
        if isinstance(v, Window):
            t = T.fresh("windownorm", "R")
            self.c.assume(T.le(lift(0), t))
            return t
        if not isinstance(v, Vec): raise T.Unsupported("norm of a %s" % type(v).__name__)
        if any(a in self.raw for a in self.resolve(v).co): return self.sqrt(self.square(self.resolve(v)))
        key = id(v)
        for x, t in self.norms.values():
            if x.kind == v.kind and set(x.co) == set(v.co) and all(same(self.c, x.co[b], v.co[b]) for b in x.co): return t
        t = T.fresh("length", "R")
        self.c.assume(T.le(lift(0), t))
        self.norms[key] = (v.copy(), t)
        return t


TIDY = {}


def tidy(k):
    """A coefficient that is identically a constant is that constant."""
    r = TIDY.get(k)
    if r is None:
        r = k
        if not T.is_const(k):
            try:
                n = poly.NF()
                p = n.nf(k)
                if not p or list(p) == [()]: r = T.real(p.get((), 0))
                elif n.equal(k, T.real(0)): r = T.real(0)
            except (poly.TooBig, ZeroDivisionError): pass
        TIDY[k] = r
    return r


def same(c, a, b):
    a, b = lift(a), lift(b)
    return a is b or poly.valid_eq(a, b)


class only(object):
    """Obligations stated from some of the hypotheses of the path only."""

    def __init__(self, c, hyps): self.c, self.hyps = c, hyps
    def __enter__(self):
        self.pc, self.was = self.c.pc, self.c.whole
        self.c.pc, self.c.whole = list(self.hyps), self.pc if self.was is None else self.was
    def __exit__(self, *a): self.c.pc, self.c.whole = self.pc, self.was


def basic(c):
    """The simple hypotheses of the path: signs of single quantities."""
    return [h for h in c.pc if not any(t.op == "ite" for t in T.subterms(h)) and sum(1 for t in T.subterms(h)) < 40]


def decide(c, cond):
    d = c.prover.implied(basic(c), cond)
    return c.decide(cond) if d is None else d


def leaves(t, conds=()):
    if t.op != "ite": return [(conds, t)]
    return leaves(t.args[1], conds + (t.args[0],)) + leaves(t.args[2], conds + (T.not_(t.args[0]),))


def reasons(c, istop, goals, hyps):
    """Every way in which the reason was set, one after the other."""
    for conds, v in leaves(istop):
        if not T.is_const(v): raise T.Unsupported("stopping reason")
        i = int(v.args[0])
        if i in goals:
            g, hs = goals[i], hyps + list(conds)
            if conds and g.op == "le" and not T.is_const(g.args[0]):     # (the tested quantity as one unknown, if that is enough)
                m = {g.args[0]: T.fresh("tested", "R")}
                short = hyps + [T.subst(conds[-1], m)], T.subst(g, m)
                if c.prover.implied(*short) is True: hs, g = short
            with only(c, hs): c.oblige("reason %d means what it says" % i, g)
    return [int(v.args[0]) for conds, v in leaves(istop)]


def no_reason(c, istop):
    """The reason is 0 on this path."""
    istop = lift(istop)
    vs = [v for conds, v in leaves(istop)]
    if all(T.is_const(v) for v in vs):
        h = T.not_(T.lt(T.const(0), istop)), T.eq(istop, T.const(0))
        if all(v.args[0] >= 0 for v in vs) and any(x is h[0] for x in c.pc) or any(x is h[1] or x is T.not_(T.not_(h[1])) for x in c.pc): return lift(True)
    return T.eq(istop, T.const(0))


def below(c, istop, itn, lim):
    """Another iteration only below the limit: at the limit every way of setting the reason sets one."""
    for conds, v in leaves(lift(istop)):
        if T.is_const(v) and v.args[0] == 0:
            with only(c, conds): c.oblige("another iteration only below the limit", T.lt(itn, lim))


def absolute(x): return abs(x) if not isinstance(x, T.Term) or T.is_const(x) else T.fn("sqrt", x * x)


def equal(c, name, x, y, sp):
    """Obligations: two vectors are equal, direction by direction."""
    d = sp.resolve(x - y)
    with only(c, []):
        for a in sorted(d.co): c.oblige("%s (%s)" % (name, a), T.eq(d.co[a], lift(0)))
        if not d.co: c.oblige(name, lift(True))


def not_negative(c, name, t):
    """(A square root is not negative, by its contract.)"""
    c.oblige(name, lift(True) if t.op == "fn" and t.args[0] == "sqrt" else T.le(lift(0), t))


def identity(c, name, x, y):
    with only(c, []): c.oblige(name, T.eq(lift(x), lift(y)))


# ---- rotation -------------------------------------------------------------------------------------------------------------
def rotation(c):
    def sym_ortho(a, b):
        a, b = lift(a), lift(b)
        if T.is_const(b) and b.args[0] == 0 or not T.is_const(b) and decide(c, T.eq(b, lift(0))):
            return (-1, 0, -a) if decide(c, T.lt(a, lift(0))) else (1, 0, a)
        r = T.fn("sqrt", a * a + b * b)
        c.assume(T.lt(lift(0), r))
        for x in (a, b):
            if c.prover.implied(basic(c), T.lt(lift(0), x)) is True: c.assume(T.lt(lift(0), x / r))
        return a / r, b / r, r
    return sym_ortho


def contract(mod, f):
    def h(c):
        a, b = T.sym("a"), T.sym("b")
        mod.sqrt = lambda x: T.fn("sqrt", lift(x))
        q, s, r = ctx.call(f, a, b)
        q, s, r = lift(q), lift(s), lift(r)
        if c.decide(T.eq(b, lift(0))):
            c.oblige("nothing to rotate: no sine", T.eq(s, lift(0)))
            c.oblige("nothing to rotate: cosine is the sign", T.eq(q, T.ite(T.lt(a, lift(0)), lift(-1), lift(1))))
            c.oblige("nothing to rotate: length", T.eq(r, T.ite(T.lt(a, lift(0)), -a, a)))
            return
        c.oblige("length is positive", T.lt(lift(0), r))
        c.oblige("length", T.eq(r * r, a * a + b * b))
        c.oblige("first component", T.eq(q * r, a))
        c.oblige("second component", T.eq(s * r, b))
    return h


# ---- LSMR -----------------------------------------------------------------------------------------------------------------
def largest(x, y): return T.ite(T.lt(lift(x), lift(y)), lift(y), lift(x))
def smallest(x, y): return T.ite(T.lt(lift(y), lift(x)), lift(y), lift(x))


def big_small(env):
    """Extremes of the diagonal of the lower triangular factor so far, at the head of the loop."""
    return largest(env["maxrbar"], env["rhobar"]), smallest(env["minrbar"], env["rhobar"])


class Bidiagonal(Declared):
    """Head of the LSMR loop.  First iteration: the state before the loop itself; later ones: an arbitrary state in which

    the new left direction u is orthogonal to U-, the new right direction v to V-; A maps V- into U = U- + u, A' maps U- into V-,
    A'u - alpha v is in V-; A h = A v + alphabar t - alpha u; A't = alphabar v; A hbar = rho rhobar / rhod f; A'f = rhod q;
    b - A x = (betad - taud) f + betadd t; v = sbar q + cbar p; t, f in U, p in V; t, f orthonormal, p of length 1, <v,p> = cbar."""

    def __init__(self, w): self.w = w

    def entry(self, c, env): c.oblige("loop entry: no iteration counted", T.eq(lift(env["itn"]), T.const(0)))

    def havoc(self, c, env, k, n):
        w, sp = self.w["w"], self.w["w"].sp
        lists = [x for x in vars(w.solver).values() if type(x) is list]
        if w.first:
            w.k0 = lift(0)
            u, v = sp.resolve(env["Mu"]), sp.resolve(env["v"])
            if len(u.co) != 1 or len(v.co) != 1: raise T.Unsupported("first directions")
            a, = u.co
            b, = v.co
            sp.tag[a], sp.tag[b] = "U", "V"
            new = dict(env)
            w.t, w.f, w.p, w.alphabar, w.cbar, w.diagonal, w.v, w.rest = u, sp.zero("L"), v, lift(env["alphabar"]), lift(1), None, v, lift(env["normA2"]) - lift(env["alpha"]) * lift(env["alpha"])
            sp.old = {"L": [(u, "the first left direction")], "R": [(v, "the first right direction")]}
        else:
            R = lambda nm, *lo: sym(c, nm, *lo)
            w.k0 = T.sym("k", "I")
            c.assume(T.le(T.const(1), w.k0), T.lt(w.k0, w.lim))
            al, ab, rho, rb, rhod, cb, be = [R(x, 0) for x in ("alpha", "alphabar", "rho", "rhobar", "rhod", "cbar", "beta")]
            c.assume(T.lt(cb, lift(1)))
            sb = T.fn("sqrt", 1 - cb * cb)
            c.assume(T.lt(lift(0), sb))
            bdd, bd, th, ta = [R(x) for x in ("betadd", "betad", "thetatilde", "tautilde")]
            u, v = sp.atom("u", "L", "U", True, ("U-",)), sp.atom("v", "R", "V", True, ("V-",))
            t, f, p = sp.atom("t", "L", "U", True), sp.atom("f", "L", "U", True), sp.atom("p", "R", "V", True)
            sp.table[("t", "f")] = lift(0)
            sp.table[("v", "p")] = cb
            q = (v - p.times(cb)).over(sb)
            zeta = rhod * bd + sb * ab * bdd + th * ta
            taud = (zeta - th * ta) / rhod
            sp.image["u"] = v.times(al) + sp.atom("an earlier right vector", "R", "V-")
            sp.image["t"] = v.times(ab)
            sp.image["f"] = q.times(rhod)
            h, hbar, x = sp.atom("h", "R"), sp.atom("hbar", "R"), sp.atom("x", "R")
            sp.image["h"] = sp.apply(v) + t.times(ab) - u.times(al)
            sp.image["hbar"] = f.times(rho * rb / rhod)
            sp.image["x"] = w.b - f.times(bd - taud) - t.times(bdd)
            y, z = sp.atom("earlier left direction", "L", "U-"), sp.atom("earlier right direction", "R", "V-")
            sp.image["earlier left direction"] = sp.atom("its image", "R", "V-")
            sp.image["earlier right direction"] = sp.atom("its image under A", "L", "U")
            sp.old = {"L": [(y, "an earlier left direction"), (u, "the last left direction")], "R": [(z, "an earlier right direction"), (v, "the last right direction")]}
            n2 = R("normA2", 0)
            new = dict(Mu=u.copy(), v=v.copy(), alpha=al, beta=be, alphabar=ab, rho=rho, rhobar=rb, cbar=cb, sbar=sb, zeta=zeta, zetabar=cb * ab * bdd, h=h, hbar=hbar, x=x,
                       xNrgNorm2=R("xNrgNorm2"), betadd=bdd, betad=bd, rhodold=rhod, tautildeold=ta, thetatilde=th, d=lift(0), normA2=n2, maxrbar=R("maxrbar"), minrbar=R("minrbar"),
                       istop=0, itn=w.k0, normr=R("normr"), normar=R("normar"), normA=R("normA"), condA=R("condA"), normx=R("normx"), trncDirErr=R("trncDirErr"), pcount=lift(0))
            new["u"], new["Nv"] = new["Mu"], new["v"]
            w.t, w.f, w.p, w.alphabar, w.cbar, w.diagonal, w.v, w.rest = t, f, p, ab, cb, big_small(new), v, n2 - al * al
            c.internal += 1
        sp.before = {"L": ("U-", "U"), "R": ("V-", "V")}
        sp.news, sp.norms = [], {}
        return new, lists

    def preserve(self, c, env, k, n):
        w = self.w["w"]
        sp = w.sp
        c.oblige("iteration counted", T.eq(lift(env["itn"]), w.k0 + 1))
        c.oblige("another iteration only without a reason to stop", no_reason(c, env["istop"]))
        below(c, env["istop"], lift(env["itn"]), w.lim)
        new = {kind: (nm, beta) for kind, nm, beta, a in sp.news}
        if len(sp.news) != 2 or set(new) != {"L", "R"}:
            if any(nm is None for nm, beta in new.values()): return c.oblige("another iteration only while there are directions", lift(False))
            raise T.Unsupported("not one new direction of either kind")
        if any(nm is None for nm, beta in new.values()): return c.oblige("another iteration only while there are directions", lift(False))
        E = lambda nm: lift(env[nm])
        u, v = Vec(sp, "L", {new["L"][0]: lift(1)}), Vec(sp, "R", {new["R"][0]: lift(1)})
        be, al = new["L"][1], new["R"][1]
        equal(c, "the left direction is kept", env["Mu"], u, sp)
        equal(c, "the right direction is kept", env["v"], v, sp)
        equal(c, "the right direction is kept for the recurrence", env["Nv"], v, sp)
        c.oblige("coefficients of the bidiagonal matrix kept", T.and_(T.eq(E("alpha"), al), T.eq(E("beta"), be)))
        # spaces
        for kind, e, cf in (("L", u, be), ("R", v, al)):
            src = [a for kd, nm, b_, a in sp.news if kd == kind][0]
            d = sp.resolve(sp.sub[src] - e.times(cf))
            c.oblige("image of the last direction lies in the next space (%s)" % kind, lift(all(sp.tag[a] in ("U", "V", "U-", "V-") for a in d.co)))
        s, q = E("s"), E("c")
        sb, cb = E("sbar"), E("cbar")
        st, ct = E("stildeold"), E("ctildeold")
        rho, rb, rhod, ab, bd, bdd = [E(x) for x in ("rho", "rhobar", "rhodold", "alphabar", "betad", "betadd")]
        t = u.times(q) - w.t.times(s)
        g = w.t.times(q) + u.times(s)
        f = g.times(ct) - w.f.times(st)
        p = v.times(cb) - w.p.times(sb)
        Q = w.p.times(cb) + v.times(sb)
        taud = (E("zeta") - E("thetatilde") * E("tautildeold")) / rhod
        equal(c, "A h", sp.apply(env["h"]) - sp.apply(v), t.times(ab) - u.times(al), sp)
        equal(c, "A't", sp.apply(t), v.times(ab), sp)
        equal(c, "v in the rotated basis", v, Q.times(sb) + p.times(cb), sp)
        equal(c, "A hbar", sp.apply(env["hbar"]), f.times(rho * rb / rhod), sp)
        equal(c, "A'f", sp.apply(f), Q.times(rhod), sp)
        equal(c, "residual of the iterate", w.b - sp.apply(env["x"]), f.times(bd - taud) + t.times(bdd), sp)
        identity(c, "zetabar", E("zetabar"), cb * ab * bdd)
        identity(c, "zeta", E("zeta"), rhod * bd + sb * ab * bdd + E("thetatilde") * E("tautildeold"))
        identity(c, "no damping", E("d"), lift(0))
        identity(c, "norm of the bidiagonal matrix", E("normA2"), w.rest + image(sp, w.v) + al * al)
        B = lambda x, y: sp.bilinear(sp.resolve(x), sp.resolve(y))
        for nm, x, y, val in (("t has length 1", t, t, 1), ("f has length 1", f, f, 1), ("p has length 1", p, p, 1), ("t is orthogonal to f", t, f, 0), ("<v, p>", v, p, cb)):
            identity(c, nm, B(x, y), lift(val))
        big, small = big_small(env)
        with only(c, basic(c)):
            c.oblige("extremes of the diagonal kept", T.and_(T.eq(big, largest(w.diagonal[0], rb)), T.eq(small, smallest(w.diagonal[1], rb))) if w.diagonal else T.or_(T.lt(lift(10 ** 100), rb), T.and_(T.eq(big, rb), T.eq(small, rb))))
            for nm in ("alphabar", "rho", "rhobar", "rhodold", "cbar", "sbar", "normA2"): c.oblige("positive: " + nm, T.lt(lift(0), E(nm)))
        identity(c, "cbar and sbar are a rotation", cb * cb + sb * sb, lift(1))


def sym(c, nm, *lo):
    t = T.sym(nm)
    if lo: c.assume(T.lt(lift(lo[0]), t))
    return t


def lsmr(P, mod, world, first):
    def h(c):
        sp = Space(c, False)
        w = types.SimpleNamespace(sp=sp, first=first)
        world["w"] = w
        mod.atleast_1d = lambda x: x
        mod.dot, mod.norm, mod.sqrt, mod.symOrtho = sp.dot, sp.norm, sp.sqrt, rotation(c)
        mod.zeros = lambda n, *a, **k: sp.zero("R") if n is sp.dim["R"] else Window()
        b = sp.atom("b", "L")
        sp.raw["b"] = None
        w.b = b
        keep = b.copy()
        w.lim = T.sym("itnlim", "I")
        atol, btol, conlim = T.sym("atol"), T.sym("btol"), T.sym("conlim")
        c.assume(T.le(lift(0), atol), T.le(lift(0), btol), T.lt(lift(0), conlim))
        S = w.solver = mod.LSMRFramework(Op(sp, "R", "L"))
        res = ctx.call(S.solve, b, damp=0, atol=atol, btol=btol, conlim=conlim, itnlim=w.lim, show=False)
        c.oblige("eight results", lift(isinstance(res, tuple) and len(res) == 8))
        x, istop, itn, normr, normar, normA, condA, normx = res
        istop, itn, normr, normar, normA, normx = [lift(y) for y in (istop, itn, normr, normar, normA, normx)]
        if not isinstance(x, Vec) or not isinstance(S.x, Vec): return c.oblige("the solution is a vector, also in .x", lift(False))
        equal(c, "the right-hand side is not modified", b, keep, sp)
        equal(c, "the solution is left in .x", S.x, x, sp)
        r = sp.resolve(w.b - sp.apply(x))
        g = sp.apply(r)
        with only(c, basic(c) if T.is_const(itn) and itn.args[0] == 0 else []):
            c.oblige("reported residual norm is that of the solution", T.eq(normr * normr, sp.bilinear(r, r)))
            c.oblige("reported norm of A'r is that of the solution", T.eq(normar * normar, sp.bilinear(g, g)))
        with only(c, basic(c)):
            not_negative(c, "residual norm is not negative", normr)
            not_negative(c, "norm of A'r is not negative", normar)
        with only(c, basic(c)): c.oblige("iteration limit respected", T.or_(T.le(itn, w.lim), T.eq(itn, T.const(0))))
        if T.is_const(itn) and itn.args[0] == 0:
            c.oblige("no iteration: nothing to do, or no iteration allowed", T.or_(T.eq(normar, lift(0)), T.le(w.lim, T.const(0))))
            equal(c, "no iteration: x = 0", x, sp.zero("R"), sp)
            c.oblige("no iteration: reason 0", T.eq(istop, T.const(0)))
            return
        c.oblige("reported length of the solution", T.eq(normx, sp.norm(x)))
        with only(c, basic(c)): c.oblige("reported norm of the operator: of its images of the directions so far", T.eq(normA * normA, w.rest + image(sp, w.v)))
        be = [beta for kind, nm, beta, a in sp.news if kind == "L"]
        if len(be) != 1: raise T.Unsupported("not one new left direction")
        last = w.cbar * T.fn("sqrt", w.alphabar * w.alphabar + be[0] * be[0]) if c.prover.implied(basic(c), T.lt(lift(0), be[0])) is True else w.cbar * w.alphabar
        big, small = (largest(w.diagonal[0], last), smallest(w.diagonal[1], last)) if w.diagonal else (last, last)
        d = T.fresh("diagonal", "R")
        short = [T.lt(lift(0), d), T.lt(d, lift(10 ** 100))] + [T.lt(lift(0), x) for x in w.diagonal or ()], T.eq(T.subst(lift(condA), {last: d}), T.subst(big / small, {last: d}))
        if c.prover.implied(*short) is not True:
            c.assume(T.lt(last, lift(10 ** 100)))
            short = basic(c), T.eq(lift(condA), big / small)
        with only(c, short[0]): c.oblige("condition estimate: ratio of the extremes of the diagonal so far", short[1])
        nb = sp.root[sp.first] if hasattr(sp, "first") else sym(c, "norm1")
        goals = {1: T.le(normr / nb, btol + atol * normA * normx / nb), 2: T.or_(T.not_(T.lt(lift(0), normr)), T.le(normar / (normA * normr), atol)),
                 3: T.le(1 / lift(condA), 1 / conlim), 4: T.le(normr / nb / (1 + normA * normx / nb), lift(0)), 5: T.or_(T.not_(T.lt(lift(0), normr)), T.le(normar / (normA * normr), lift(0))), 6: T.le(1 / lift(condA), lift(0)), 7: T.le(w.lim, itn)}
        got = reasons(c, istop, goals, [T.le(lift(0), atol), T.le(lift(0), btol), T.lt(lift(0), conlim)])
        c.oblige("only documented reasons", lift(all(0 <= i <= 8 for i in got)))
    return h


# ---- MINRES ---------------------------------------------------------------------------------------------------------------
class Tridiagonal(Declared):
    """Head of the MINRES loop.  First iteration: the state before the loop itself; later ones: an arbitrary state in which

    y = r2 = beta v, r1 = oldb v-; the new direction v is orthogonal to the space V- of the earlier ones, A v- = beta v + V-;
    A w = E, A w2 = e; v = sn E - cs q and beta v- = epsln e + dbar (cs E + sn q); b - A x = phibar q, q of length 1,
    <v, q> = -cs; A q = cs beta v- + sn dbar v - cs A v."""

    def __init__(self, w): self.w = w

    def entry(self, c, env): c.oblige("loop entry: no iteration counted", T.eq(lift(env["itn"]), T.const(0)))

    def havoc(self, c, env, k, n):
        w, sp = self.w["w"], self.w["w"].sp
        lists = [x for x in vars(w.solver).values() if type(x) is list]
        if w.first:
            w.k0 = lift(0)
            v = sp.resolve(env["y"])
            if len(v.co) != 1: raise T.Unsupported("first direction")
            a, = v.co
            sp.tag[a] = "V"
            v = Vec(sp, "R", {a: lift(1)})
            sp.old = {"R": [(v, "the first direction")]}
            sp.positive.add(a)
            w.v, w.q, w.phibar, w.E, w.tnorm2 = v, v, lift(env["phibar"]), sp.zero("R"), lift(0)
            w.r = sp.resolve(w.b - sp.apply(env["x"]))
            new = dict(env)
        else:
            R = lambda nm, *lo: sym(c, nm, *lo)
            w.k0 = T.sym("k", "I")
            c.assume(T.le(T.const(1), w.k0), T.lt(w.k0, w.lim))
            be, ob, ep, db, pb, cs = R("beta", 0), R("oldb", 0), R("epsln"), R("dbar"), R("phibar", 0), R("cs")
            c.assume(T.lt(lift(-1), cs), T.lt(cs, lift(1)))
            sn = T.fn("sqrt", 1 - cs * cs)
            c.assume(T.lt(lift(0), sn))
            vo, v = sp.atom("v-", "R", "V-", True, ("V--",)), sp.atom("v", "R", "V", True, ("V-", "V--"))
            e, q = sp.atom("e", "R", "V"), sp.atom("q", "R", "V", True)
            sp.table[("v", "q")] = -cs
            E = (v + q.times(cs)).over(sn)
            sp.image["v-"] = v.times(be) + sp.atom("an earlier vector", "R", "V-")
            z = sp.atom("earlier direction", "R", "V--")
            sp.image["earlier direction"] = sp.atom("its image", "R", "V-")
            sp.old = {"R": [(z, "an earlier direction"), (vo, "the direction before the last"), (v, "the last direction")]}
            sp.positive.add("v")
            sp.late = {"v-": (e.times(ep) + (E.times(cs) + q.times(sn)).times(db)).over(be)}
            ww, w2, x = sp.atom("w", "R"), sp.atom("w2", "R"), sp.atom("x", "R")
            sp.image["w"], sp.image["w2"] = E, e
            sp.image["x"] = w.b - q.times(pb)
            sp.image["q"] = vo.times(cs * be) + v.times(sn * db) - sp.im("v").times(cs)
            gmin, w.tnorm2 = R("gmin", 0), R("tnorm2", 0)
            new = dict(x=x, y=v.times(be), r1=vo.times(ob), r2=v.times(be), w=ww, w2=w2, beta=be, oldb=ob, epsln=ep, dbar=db, phibar=pb, cs=cs, sn=sn, istop=0, itn=w.k0,
                       Anorm=R("Anorm"), Acond=R("Acond"), rnorm=pb, qrnorm=pb, ynorm=R("ynorm"), xNrgNorm2=R("xNrgNorm2", 0), trncDirErr=R("trncDirErr"), Arnorm=R("Arnorm"),
                       tnorm2=w.tnorm2, gmax=R("gmax"), gmin=gmin)
            w.v, w.q, w.phibar, w.E = v, q, pb, E
            w.r = q.times(pb)
            c.internal += 1
        sp.last_direction, sp.length2 = w.v, None
        sp.before = {"R": ("V--", "V-", "V")}
        sp.news, sp.norms = [], {}
        return new, lists

    def preserve(self, c, env, k, n):
        w = self.w["w"]
        sp = w.sp
        c.oblige("iteration counted", T.eq(lift(env["itn"]), w.k0 + 1))
        c.oblige("another iteration only without a reason to stop", no_reason(c, env["istop"]))
        if len(sp.news) != 1:
            raise T.Unsupported("not one new direction")
        kind, nm, be, a = sp.news[0]
        E = lambda x: lift(env[x])
        if nm is None:
            with only(c, basic(c)): c.oblige("no direction left: the residual vanishes", T.eq(E("phibar"), lift(0)))
            c.assume(T.lt(lift(0), sp.norm(env["x"])))        # (A x = b, which is not 0)
            return c.oblige("another iteration only while there are directions", lift(False))
        v = Vec(sp, "R", {nm: lift(1)})
        cs, sn = E("cs"), E("sn")
        c.oblige("coefficient of the tridiagonal matrix kept", T.eq(E("beta"), be))
        equal(c, "y", env["y"], v.times(be), sp)
        equal(c, "r2", env["r2"], v.times(be), sp)
        equal(c, "r1", env["r1"], w.v.times(E("oldb")), sp)
        d = sp.resolve(sp.sub[a] - v.times(be))
        c.oblige("image of the last direction lies in the next space", lift(all(sp.tag[b] in ("V", "V-") for b in d.co)))
        q, e2 = w.q.times(sn) - v.times(cs), w.q.times(cs) + v.times(sn)
        equal(c, "A w", sp.apply(env["w"]), e2, sp)
        equal(c, "A w2", sp.apply(env["w2"]), w.E, sp)
        equal(c, "the last direction in the rotated basis", w.v.times(be), w.E.times(E("epsln")) + w.q.times(E("dbar")), sp)
        equal(c, "residual of the iterate", w.b - sp.apply(env["x"]), q.times(E("phibar")), sp)
        equal(c, "A q", sp.apply(w.q).times(sn), w.v.times(cs * be) + v.times(sn * E("dbar")), sp)
        B = lambda x, y: sp.bilinear(sp.resolve(x), sp.resolve(y))
        identity(c, "q has length 1", B(q, q), lift(1))
        identity(c, "<v, q>", B(v, q), -cs)
        identity(c, "cs and sn are a rotation", cs * cs + sn * sn, lift(1))
        identity(c, "norm of the tridiagonal matrix", E("tnorm2"), w.tnorm2 + sp.length2)
        with only(c, basic(c)):
            for x in ("beta", "oldb", "phibar", "sn", "tnorm2", "gmin", "xNrgNorm2"): c.oblige("positive: " + x, T.lt(lift(0), E(x)))


def image(sp, v):
    """Square of the length of the image of a direction."""
    y = sp.resolve(sp.apply(v))
    return sp.bilinear(y, y)


class Symmetric(Space):
    """Positive definite self-adjoint operator: v'Av > 0.  The last direction is expressed in the rotated ones once the norm of
    the next one is taken."""

    def __init__(self, c):
        Space.__init__(self, c, True)
        self.positive, self.late, self.last_direction, self.length2 = set(), {}, None, None

    def pair(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x in self.raw and self.raw[x] == y and y in self.positive:
                t = T.sym("<%s,%s>" % tuple(sorted((a, b))))
                self.c.assume(T.lt(lift(0), t))
                return t
        return Space.pair(self, a, b)

    def square(self, w):
        n = self.count
        r = Space.square(self, w)
        if self.count != n:
            if self.last_direction is not None: self.length2 = image(self, self.last_direction)
            self.sub.update(self.late)
        return r


def minres(P, mod, world, first):
    def h(c):
        sp = Symmetric(c)
        w = types.SimpleNamespace(sp=sp, first=first)
        world["w"] = w
        eps = sym(c, "eps", 0)

        def largest(*a, **k):
            r = [x for x in a if lift(x) is eps] if not k and len(a) == 2 and all(isinstance(x, T.Term) for x in a) else []
            if not r: return world["max"](*a, **k)
            x = a[0] if lift(a[1]) is eps else a[1]
            c.assume(T.le(eps, x))             # (assumption: nonsingular operator)
            return x
        world["largest"] = largest
        mod.dot, mod.norm, mod.sqrt = sp.dot, sp.norm, sp.sqrt
        mod.zeros = lambda n, *a, **k: sp.zero("R") if n is sp.dim["R"] else Window()
        mod.np = types.SimpleNamespace(result_type=lambda *a: "float64")
        mod.check_symmetric, mod.machine_epsilon = (lambda op, *a, **k: True), (lambda: eps)
        b = sp.atom("b", "R")
        sp.raw["b"] = None
        w.b = b.copy()
        keep = b.copy()
        w.lim = T.sym("itnlim", "I")
        rtol, etol = T.sym("rtol"), T.sym("etol")
        c.assume(T.le(lift(0), rtol), T.le(lift(0), etol), T.le(T.const(1), w.lim))
        S = w.solver = mod.Minres(Op(sp, "R", "R"))
        ctx.call(S.solve, b, rtol=rtol, etol=etol, itnlim=w.lim, show=False)
        x, itn, rnorm, istop = S.x, lift(S.itn), lift(S.rnorm), lift(S.istop)
        if not isinstance(x, Vec): return c.oblige("the solution is a vector", lift(False))
        equal(c, "the right-hand side is not modified", b, keep, sp)
        equal(c, "the solution under its other name", S.bestSolution, x, sp)
        r = sp.resolve(w.b - sp.apply(x))
        with only(c, basic(c) if T.is_const(itn) and itn.args[0] == 0 else []):
            c.oblige("reported residual norm is that of the solution", T.eq(rnorm * rnorm, sp.bilinear(r, r)))
        c.oblige("one residual norm", T.and_(T.eq(lift(S.residNorm), rnorm), T.eq(lift(S.nMatvec), itn)))
        with only(c, basic(c)):
            not_negative(c, "residual norm is not negative", rnorm)
            c.oblige("iteration limit respected", T.le(itn, w.lim))
        good = T.or_(*[T.eq(istop, T.const(i)) for i in (1, 2, 3, 4, 10)])
        c.oblige("converged exactly for the reasons that say so", T.eq(T.boolify(lift(S.converged)), good))
        if T.is_const(itn) and itn.args[0] == 0:
            c.oblige("no iteration: nothing to do", T.eq(sp.bilinear(sp.resolve(b), sp.resolve(b)), lift(0)))
            equal(c, "no iteration: x = 0", x, sp.zero("R"), sp)
            c.oblige("no iteration: reason 0", T.eq(istop, T.const(0)))
            return
        with only(c, basic(c)):
            c.oblige("reported norm of the operator: of its images of the directions so far", T.eq(lift(S.Anorm) * lift(S.Anorm), w.tnorm2 + sp.length2))
            c.oblige("reported length of the solution", T.eq(lift(S.ynorm), sp.norm(x)))
        g = sp.resolve(sp.apply(w.r))
        with only(c, []): c.oblige("reported norm of A r is that of the iterate before", T.eq(lift(S.Arnorm) * lift(S.Arnorm), sp.bilinear(g, g)))
        nb = sp.root[sp.first] if hasattr(sp, "first") else sym(c, "norm1")
        A, y = lift(S.Anorm), lift(S.ynorm)
        goals = {1: T.le(rnorm / (A * y), rtol), 6: T.le(w.lim, itn), 3: T.le(nb, A * y * eps),
                 2: T.le(lift(S.Arnorm) / (A * w.phibar), rtol), 4: T.le((lift(1) / 10) / eps, lift(S.Acond))}
        got = reasons(c, istop, goals, [T.le(lift(0), rtol), T.lt(lift(0), eps), T.lt(lift(0), w.phibar), T.lt(lift(0), A)])
        c.oblige("only documented reasons", lift(all(-1 <= i <= 10 for i in got)))
        c.oblige("a reason to stop", T.not_(T.eq(istop, T.const(0))))
    return h


def harnesses(tree, tier):
    P, ls, mr = load(tree)
    world = {"max": P.builtins.get("max", max)}
    world["largest"] = world["max"]
    P.builtins["max"] = lambda *a, **k: world["largest"](*a, **k)
    P.builtins["print"] = lambda *a, **k: None
    P.loops["Minres.solve#0"] = Tridiagonal(world)
    P.loops["LSMRFramework.solve#0"] = Bidiagonal(world)
    real = ls.symOrtho
    return [Harness("rotation", contract(ls, real), ["pykrylov_lsmr.symOrtho", "pykrylov_lsmr.sign"]),
            Harness("LSMR: up to the first iteration", lsmr(P, ls, world, True), ["pykrylov_lsmr.LSMRFramework.solve"], ["pykrylov_lsmr.symOrtho"], timeout=400, solver_timeout=1500),
            Harness("LSMR: every later iteration", lsmr(P, ls, world, False), ["pykrylov_lsmr.LSMRFramework.solve"], ["pykrylov_lsmr.symOrtho"], timeout=400, solver_timeout=1500),
            Harness("MINRES: up to the first iteration", minres(P, mr, world, True), ["pykrylov_minres.Minres.solve", "pykrylov_minres.Minres.normof2"], timeout=400, solver_timeout=1500),
            Harness("MINRES: every later iteration", minres(P, mr, world, False), ["pykrylov_minres.Minres.solve", "pykrylov_minres.Minres.normof2"], timeout=400, solver_timeout=1500)]
