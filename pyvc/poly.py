"""Decision procedure for identities of rational functions over atoms (own back end 'ring').

Every real term becomes a Laurent polynomial with rational coefficients over atoms: symbols, uninterpreted applications,
transcendental applications (keyed by the normal form of their arguments) and, for every multi-term denominator d, an
atom inv(d) with d*inv(d) = 1.  x == y is valid on the common domain (denominators and atoms with negative exponent
non-zero) iff x - y vanishes after clearing the inv atoms.  Besides the field axioms only sqrt(u)^2 = u is used.
"""
from fractions import Fraction
from . import terms as T

LIMIT = 600000


class TooBig(Exception):
    pass


def pconst(c):
    return {} if c == 0 else {(): Fraction(c)}


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r


def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for x, e in n:
        v = d.get(x, 0) + e
        if v == 0: del d[x]
        else: d[x] = v
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    return r


def ppow(a, n):
    r = pconst(1)
    for _ in range(n): r = pmul(r, a)
    return r


class NF(object):
    def __init__(self):
        self.atom_ids = {}
        self.memo = {}
        self.sq = {}            # sqrt atom -> polynomial of its argument
        self.inv = {}           # inv atom -> polynomial d (no inv atoms of later index)
        self.n = 0
        self.rep = {}           # atom -> a term it stands for (not for inv and msum atoms)
        self.msum = {}          # multi-sum atom -> (bound variables, bounds, factors)
        self.deps = {}

    def atom(self, key, rep=None):
        i = self.atom_ids.get(key)
        if i is None:
            i = self.n
            self.n += 1
            self.atom_ids[key] = i
            if rep is not None: self.rep[i] = rep
        return i

    # -- sums: linear decomposition and exchange of the order of summation -----------------------------------------------
    def dep(self, i):
        """Bound-variable symbols the atom depends on."""
        r = self.deps.get(i)
        if r is None:
            if i in self.rep: r = frozenset(x for x in T.syms(self.rep[i]) if isinstance(x.args[0], str) and x.args[0][:1] in "#@")
            elif i in self.inv: r = frozenset(x for m in self.inv[i] for y, e in m for x in self.dep(y))
            elif i in self.msum:
                vs, bounds, fac = self.msum[i]
                r = frozenset(x for f, e in fac for x in T.syms(f) if isinstance(x.args[0], str) and x.args[0][:1] in "#@" and not any(x is v for v in vs))
            else: r = frozenset()
            self.deps[i] = r
        return r

    def term(self, i):
        if i in self.rep: return self.rep[i]
        if i in self.inv: return T.div(T.real(1), self.poly_term(self.inv[i]))
        vs, bounds, fac = self.msum[i]
        b = T.real(1)
        for f, e in fac: b = T.mul(b, T.power(f, T.const(e)))
        for v, (lo, hi) in zip(vs, bounds): b = T.sum_(v, lo, hi, b)
        return b

    def poly_term(self, p):
        r = T.real(0)
        for m, c in p.items():
            t = T.real(c)
            for x, e in m: t = T.mul(t, T.power(self.term(x), T.const(e)))
            r = T.add(r, t)
        return r

    def nf_sum(self, t):
        bv, lo, hi, body = t.args
        p = self.nf(body)
        out = {}
        for m, c in p.items():
            ind = tuple((x, e) for x, e in m if bv not in self.dep(x))
            dep = [(x, e) for x, e in m if bv in self.dep(x)]
            self.fresh = getattr(self, "fresh", 0) + 1
            v0 = T.sym("@%d" % self.fresh, "I")
            vs, bounds, fac = [v0], [(lo, hi)], []
            for x, e in dep:
                if x in self.msum and e > 0:
                    ws, bs, fs = self.msum[x]
                    for _ in range(e):
                        ren = {}
                        for w in ws:
                            self.fresh += 1
                            ren[w] = T.sym("@%d" % self.fresh, "I")
                        vs += [ren[w] for w in ws]
                        bounds += bs
                        fac += [(T.subst(f, dict(ren)), k) for f, k in fs]
                else: fac.append((self.term(x), e))
            fac = [(T.subst(f, {bv: v0}), e) for f, e in fac]
            i = self.msum_atom(vs, bounds, fac)
            out = padd(out, {mmul(ind, ((i, 1),)): c})
        return out

    def msum_atom(self, vs, bounds, fac):
        import itertools
        best = None
        perms = itertools.permutations(range(len(vs))) if len(vs) <= 4 else [range(len(vs))]
        for pm in perms:
            names = [T.sym("#%d" % (k + 1), "I") for k in range(len(vs))]
            ren = {vs[j]: names[k] for k, j in enumerate(pm)}
            fs = [(T.subst(f, dict(ren)), e) for f, e in fac]
            key = ("msum", tuple((self.key(bounds[j][0]), self.key(bounds[j][1])) for j in pm), tuple(sorted((self.key(f), e) for f, e in fs)))
            if best is None or key < best[0]: best = (key, names, [bounds[j] for j in pm], fs)
        i = self.atom(best[0])
        if i not in self.msum: self.msum[i] = best[1:]
        return i

    def key(self, t):
        return tuple(sorted(self.canon(self.nf(t)).items()))

    def canon(self, p):
        """A canonical-enough form for keys: clear inv atoms into a single quotient where cheap."""
        return p

    def split(self, p):
        """p = c * monomial * q with q having leading coefficient 1 and no monomial factor."""
        low = None
        for m in p:
            d = dict(m)
            if low is None: low = dict(d)
            else:
                for x in list(low):
                    low[x] = min(low[x], d.get(x, 0))
                for x, e in d.items():
                    if x not in low and e < 0: low[x] = e
                    elif x not in low: low[x] = 0
            if low is not None:
                for x in list(low):
                    if x not in d and low[x] > 0: low[x] = 0
        mono = tuple(sorted((x, e) for x, e in low.items() if e != 0))
        neg = tuple((x, -e) for x, e in mono)
        q = {mmul(m, neg): c for m, c in p.items()}
        lead = q[min(q)]
        return lead, mono, {m: c / lead for m, c in q.items()}

    def invert(self, p):
        if not p: raise ZeroDivisionError("division by a term that is identically zero")
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((x, -e) for x, e in m): 1 / c}
        # express p over one common denominator first: p = N * D with D a monomial in inv atoms
        p2, D = self.clear(p)
        if not p2: raise ZeroDivisionError("division by a term that is identically zero")
        lead, mono, q = self.split(p2)
        base = {mmul(tuple((x, -e) for x, e in mono), tuple((x, -e) for x, e in D)): 1 / lead}
        if len(q) == 1: return base
        i = self.atom(("inv", tuple(sorted(q.items()))))
        self.inv[i] = q
        return pmul(base, {((i, 1),): Fraction(1)})

    def clear(self, p):
        """p = p' * D, p' free of inv atoms, D a monomial (tuple) in inv atoms."""
        D = []
        todo = sorted({x for m in p for x, e in m if x in self.inv}, reverse=True)
        while todo:
            x = todo[0]
            d = self.inv[x]
            emax = max(dict(m).get(x, 0) for m in p) if p else 0
            by = {}
            for m, c in p.items():
                e = dict(m).get(x, 0)
                rest = tuple((y, f) for y, f in m if y != x)
                by.setdefault(emax - e, {})[rest] = c
            out = {}
            acc, last = pconst(1), 0
            for k in sorted(by):
                for _ in range(k - last): acc = pmul(acc, d)
                last = k
                out = padd(out, pmul(by[k], acc))
            p = out
            if emax: D.append((x, emax))
            if self.sq: p = self.reduce_sqrt(p)
            todo = sorted({y for m in p for y, e in m if y in self.inv}, reverse=True)
        return p, tuple(sorted(D))

    def reduce_sqrt(self, p):
        again = True
        while again:
            again = False
            for m, c in list(p.items()):
                for x, e in m:
                    if x in self.sq and (e >= 2 or e < 0):
                        k, r = e // 2, e % 2
                        rest = tuple(sorted([(y, f) for y, f in m if y != x] + ([(x, r)] if r else [])))
                        u = self.sq[x]
                        f = ppow(u, k) if k >= 0 else ppow(self.invert(u), -k)
                        p = padd(p, {m: c}, -1)
                        p = padd(p, pmul({rest: c}, f))
                        again = True
                        break
                if again: break
        return p

    def nf(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        op, a = t.op, t.args
        one = Fraction(1)
        if op == "const": r = pconst(a[0])
        elif op == "add":
            r = self.nf(a[0])
            for x in a[1:]: r = padd(r, self.nf(x))
        elif op == "mul":
            r = self.nf(a[0])
            for x in a[1:]: r = pmul(r, self.nf(x))
        elif op == "div": r = pmul(self.nf(a[0]), self.invert(self.nf(a[1])))
        elif op == "toreal": r = self.nf(a[0])
        elif op == "fn":
            i = self.atom(("fn", a[0]) + tuple(self.key(x) for x in a[1:]), t)
            if a[0] == "sqrt" and i not in self.sq: self.sq[i] = self.nf(a[1])
            r = {((i, 1),): one}
        elif op == "app": r = {((self.atom(("app", a[0]) + tuple(self.key(x) for x in a[1:]), t), 1),): one}
        elif op == "sum": r = self.nf_sum(t)
        elif op == "ite": r = {((self.atom(("ite", a[0].id, self.key(a[1]), self.key(a[2])), t), 1),): one}
        else: r = {((self.atom(("t", t.id), t), 1),): one}
        if self.sq: r = self.reduce_sqrt(r)
        self.memo[t] = r
        return r

    def equal(self, x, y):
        d = padd(self.nf(x), self.nf(y), -1)
        if not d: return True
        d, _ = self.clear(d)
        if self.sq: d = self.reduce_sqrt(d)
        return not d


def valid_eq(x, y):
    """True if x == y is a rational-function identity (on the common domain)."""
    try:
        return NF().equal(x, y)
    except (TooBig, ZeroDivisionError):
        return False
