"""Independent subsamples are whole, original, mutually independent match-ups.

Pre: a match-up object (structure: pairing graph with every correlation form; symbolic counts and contents) whose weighting
matrices have non-empty rows of increasing columns; any sampling fraction and sample limit.
Callee contracts: get_sample_idxs returns distinct match-ups of the series no two of which share a column of any of the
matrices named by its first argument, at most as many as asked for; random.sample returns that many elements of its population at
distinct positions (precondition: no more than there are); sorted() returns a rearrangement of its argument.
"""
import types
from pyvc import terms as T, ctx
from pyvc.arr import SArr, dim, pick
from pyvc.instrument import Declared, SymSeq
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M

TRUSTED = M.TRUSTED + ["random.sample and sorted() by their contracts (distinct positions; a rearrangement)",
                       "int() of a real number by its contract (truncation)"]
ASSUMPTIONS = ["callee contract of get_sample_idxs (its own harness, and the run-time cases)", "rows of a weighting matrix hold increasing columns without gaps (for the propagated uncertainty of a sampled value)"]
R = (1, 0, 0, [1])


def structures(tier):
    out = []
    for st in M.structures(tier):
        out.append((st[0], st[1], st[2], (1,) + tuple(st[3][1:])))
    out.append(("series with and without weighting matrices", [R, (3, 1, 0, [3, 1, 4]), (2, 1, 0, [1, 2])], [(0, 1), (1, 2), (0, 2)], (1, 1, 0)))
    return out


def harnesses(tree, tier):
    P = M.program(tree)
    world = {}
    rnd = types.ModuleType("random")
    rnd.sample = lambda pop, k, **kw: world["sample"](pop, k)
    P.models["random"] = rnd
    import builtins
    P.builtins["sorted"] = lambda x, **k: world["sorted"](x) if isinstance(x, (SymSeq, SArr)) and not k and world else builtins.sorted(x, **k)
    cy = types.ModuleType("cython_lib_sample2ind")
    cy.get_sample_idxs = lambda *a: world["get"](*a)
    P.models["cython_lib_sample2ind"] = P.models[M.PKG + "matchupProcessing.sample2ind.cython_lib_sample2ind"] = cy
    h = P.load("harmonisation")
    h.MatchUp = P.load(M.PKG + "matchupIO.MatchUp").MatchUp
    h.Uncertainty = P.load(M.PKG + "matchupIO.Uncertainty").Uncertainty
    cls = P.load(M.PKG + "matchupProcessing.sample2ind.Sample2Ind").Sample2Ind
    return cython(tree, tier) + [Harness("sampling: " + st[0], make(P, cls, st, world), ["Sample2Ind.run"], ["get_sample_idxs", "random.sample", "sorted"], structure="pairing graph: " + st[0], timeout=300, max_paths=64)
            for st in structures(tier)]


class Greedy(Declared):
    """Loop of get_sample_idxs over the match-ups of a series (head: k match-ups looked at).

    The L match-ups sampled so far are earlier ones, increasing; every column of each is marked; no two share a column of
    any of the matrices.  (`generic` is the tuple of symbols the statements are instantiated at.)"""

    def __init__(self, S): self.S = S

    def state(self, env):
        x = env["idxs"]
        return lift(x.shape[0]), x.frozen(), [m.frozen() for m in env["sampled_cols"]]

    def statements(self, k, L, pick, marks):
        S = self.S
        p, q, e, e2 = S.generic
        inp = lambda x: T.and_(T.le(T.const(0), x), T.lt(x, L))
        out = [("as many as looked at", T.and_(T.le(T.const(0), L), T.le(L, k))),
               ("earlier match-ups", T.implies(inp(p), T.and_(T.le(T.const(0), pick(p)), T.lt(pick(p), k)))),
               ("increasing", T.implies(T.and_(inp(p), inp(q), T.lt(p, q)), T.lt(pick(p), pick(q))))]
        for j in range(len(marks)):
            out.append(("matrix %d: columns of sampled match-ups marked" % j, T.implies(T.and_(inp(p), S.row(j, pick(p), e)), marks[j](S.C(j, e)))))
            out.append(("matrix %d: no shared column" % j, T.implies(T.and_(inp(p), inp(q), T.lt(p, q), S.row(j, pick(p), e), S.row(j, pick(q), e2)), T.not_(T.eq(S.C(j, e), S.C(j, e2))))))
        return out

    def entry(self, c, env):
        for nm, g in self.statements(T.const(0), *self.state(env)): c.oblige("before the loop: " + nm, g)

    def havoc(self, c, env, k, n):
        S = self.S
        marks = env["sampled_cols"]
        c.oblige("one table of marks per matrix", lift(len(marks) == S.count))
        for j, m in enumerate(marks): m[...] = SArr.of(m.shape, lambda x, j=j: T.app("mark%d" % j, [lift(x)], "B"))
        L = T.sym("L", "I")
        idxs = SArr.of((L,), lambda p: T.app("picked", [lift(p)], "I"))
        p, q, e, e2 = S.generic
        pick = idxs.frozen()
        c.prover.hints = [x - S.P(j, k) for j in range(S.count) for x in (e, e2)]
        for nm, g in self.statements(k, L, pick, [m.frozen() for m in marks]): c.assume(g)
        S.L = L
        return {"idxs": idxs}, list(marks)

    def preserve(self, c, env, k, n):
        for nm, g in self.statements(k, *self.state(env)): c.oblige("iteration: " + nm, g)


class Csr(object): pass


def cython(tree, tier):
    """get_sample_idxs itself, for one to three weighting matrices of any sizes among more."""
    P = M.program(tree)
    world = {}
    rnd = types.ModuleType("random")
    rnd.sample = lambda pop, k, **kw: world["sample"](pop, k)
    P.models["random"] = rnd
    P.builtins["set"] = lambda x=(): set(int(T.lift(v).args[0]) if T.is_const(v) else v for v in x)
    f = P.load(M.PKG + "matchupProcessing.sample2ind.cython_lib_sample2ind").get_sample_idxs
    def make1(idx, total):
        def h(c):
            S = types.SimpleNamespace(count=len(idx))
            S.generic = tuple(T.sym(x, "I") for x in ("p", "q", "e", "e2"))
            S.P = lambda j, i: T.app("P%d" % idx[j], [lift(i)], "I")
            S.C = lambda j, e: T.app("C%d" % idx[j], [lift(e)], "I")
            S.row = lambda j, i, e: T.and_(T.le(S.P(j, i), e), T.lt(e, S.P(j, i + 1)))
            n, limit = T.sym("n", "I"), T.sym("limit", "I")
            c.assume(T.le(T.const(0), n), T.le(T.const(0), limit))
            ws = []
            for k in range(total):
                w = Csr()
                w.shape = (dim(n) if k in idx else T.sym("n_other%d" % k, "I"), T.sym("cols%d" % k, "I"))
                c.assume(*[T.le(T.const(0), lift(x)) for x in w.shape])
                ws.append(w)
            csr(c, ws)
            P.loops["get_sample_idxs#0"] = Greedy(S)
            drawn = []

            def sample(pop, k):
                m = lift(pop.shape[0])
                c.oblige("callee precondition: no more sampled than there are", T.and_(T.le(T.const(0), lift(k)), T.le(lift(k), m)))
                c.fact("pos", lambda a, t: T.implies(T.and_(T.le(T.const(0), a[0]), T.lt(a[0], lift(k))), T.and_(T.le(T.const(0), t), T.lt(t, m))))
                get = pop.frozen()
                drawn.append(1)
                return SymSeq(dim(k), lambda i: get(T.app("pos", [lift(i)], "I")))
            world["sample"] = sample
            r = ctx.call(f, SArr.of((len(idx),), lambda i: pick([lambda v=v: T.const(v) for v in idx], i)), limit, ws)
            m, get = (lift(r.n), r.get) if isinstance(r, SymSeq) else (lift(r.shape[0]), r.frozen())
            c.oblige("at most as many as asked for", T.and_(T.le(T.const(0), m), T.le(m, limit)))
            # two different results; where they are drawn they are the positions S.generic[:2] of the picked ones
            x, y = T.sym("x", "I"), T.sym("y", "I")
            inr = [T.le(T.const(0), x), T.lt(x, m), T.le(T.const(0), y), T.lt(y, m), T.not_(T.eq(x, y))]
            px, py = (T.app("pos", [x], "I"), T.app("pos", [y], "I")) if drawn else (x, y)
            if drawn: inr.append(T.not_(T.eq(px, py)))
            lo, hi = (px, py), (py, px)
            inst = []
            for a, b in (lo, hi):
                for ee, e2 in ((S.generic[2], S.generic[3]), (S.generic[3], S.generic[2])):
                    St = types.SimpleNamespace(**dict(vars(S), generic=(a, b, ee, e2)))
                    inst += [g for nm, g in Greedy(St).statements(n, S.L, lambda p: T.app("picked", [lift(p)], "I"), [lambda v, j=j: T.app("mark%d" % j, [lift(v)], "B") for j in range(S.count)])]
            # (the invariant holds for all p, q, e, e2: these are its instances at the two results)
            c.oblige("match-ups of the series", T.and_(T.le(T.const(0), get(x)), T.lt(get(x), n)), inr + inst)
            c.oblige("different match-ups", T.not_(T.eq(get(x), get(y))), inr + inst)
            for j in range(S.count):
                e, e2 = S.generic[2:]
                c.oblige("matrix %d: no shared column" % j, T.implies(T.and_(S.row(j, get(x), e), S.row(j, get(y), e2)), T.not_(T.eq(S.C(j, e), S.C(j, e2)))), inr + inst)
        return h
    cases = [([0], 1), ([1, 0], 3)] + ([([0, 2, 1], 3)] if tier == "thorough" else [])
    return [Harness("get_sample_idxs: matrices %s of %d" % (idx, t), make1(idx, t), ["get_sample_idxs"], ["random.sample"], structure="matrices %s of %d" % (idx, t), timeout=300, max_paths=200) for idx, t in cases]


def contracts(c, Y, mu, world):
    """The callee contracts, for one path."""
    count, names = [0], {}

    def new(nm):
        count[0] += 1
        return "%s%d" % (nm, count[0])

    def get(w_idx, k, ws):
        c.oblige("callee precondition: all weighting matrices, as they are", lift(len(ws) == len(mu.w_matrices) and all(x is y for x, y in zip(ws, mu.w_matrices))))
        got = [lift(w_idx.at(T.const(i))) for i in range(w_idx.shape[0])]
        got = set(int(T.lift(g).args[0]) if T.is_const(g) else None for g in got)
        s = [q for q in range(len(Y.Nm)) if got == set(Y.w[b] for b in Y.w if Y.blocks[b][1] == q)]
        c.oblige("callee precondition: the weighting matrices of one series", lift(len(s) == 1))
        if len(s) != 1: raise ctx.Infeasible()
        s = s[0]
        n, nm = T.sym(new("drawn"), "I"), new("draw")
        c.assume(T.le(T.const(0), n), T.le(n, lift(k)), T.le(n, Y.Nm[s]))
        c.fact(nm, lambda a, t: T.implies(T.and_(T.le(T.const(0), a[0]), T.lt(a[0], n)), T.and_(T.le(T.const(0), t), T.lt(t, Y.Nm[s]))))
        el = lambda i: T.app(nm, [lift(i)], "I")
        names[nm] = lambda p, q: [T.implies(T.not_(T.eq(p, q)), T.and_(T.not_(T.eq(el(p), el(q))), indep(s, el(p), el(q))))]
        return SymSeq(n, el)

    def pick(pop, k, pre):
        n = pop.n if isinstance(pop, SymSeq) else pop.shape[0]
        get = pop.get if isinstance(pop, SymSeq) else pop.frozen()
        if pre: c.oblige("callee precondition: no more sampled than there are", T.and_(T.le(T.const(0), lift(k)), T.le(lift(k), lift(n))))
        nm = new("pos")
        c.fact(nm, lambda a, t: T.implies(T.and_(T.le(T.const(0), a[0]), T.lt(a[0], lift(k))), T.and_(T.le(T.const(0), t), T.lt(t, lift(n)))))
        pos = lambda i: T.app(nm, [lift(i)], "I")

        names[nm] = lambda p, q: [T.implies(T.not_(T.eq(p, q)), T.not_(T.eq(pos(p), pos(q))))]
        return SymSeq(dim(k), lambda i: get(pos(i)))
    world.update(get=get, sample=lambda pop, k: pick(pop, k, True), sorted=lambda x: pick(x, x.n if isinstance(x, SymSeq) else x.shape[0], False), names=names)


def pair_facts(names, x, y):
    """What the callee contracts say about two sampled match-ups x and y."""
    out = []
    while x.op == "app" and y.op == "app" and x.args[0] == y.args[0] and x.args[0] in names:
        nm, x, y = x.args[0], x.args[1], y.args[1]
        out += names[nm](x, y)
    return out


def original(c, t, hyps):
    """The position g of the data when t is the g-th adjustment factor of the data."""
    t = c.prover.simp(c.pc + list(hyps), lift(t))
    return t.args[1] if t.op == "app" and t.args[0] == "ks" else None


def indep(s, a, b): return T.app("independent%d" % s, [a, b], "B")


def matrices(c, Y, mu): csr(c, mu.w_matrices)


def csr(c, ws):
    """Weighting matrices as CSR arrays: row i holds the columns C(P(i)) ... C(P(i + 1) - 1), increasing."""
    for k, w in enumerate(ws):
        n, K = w.shape
        nnz, Pn, Cn = T.sym("nnz%d" % k, "I"), "P%d" % k, "C%d" % k
        Pf, Cf = (lambda Pn: lambda i: T.app(Pn, [lift(i)], "I"))(Pn), (lambda Cn: lambda i: T.app(Cn, [lift(i)], "I"))(Cn)
        w.indptr, w.indices = SArr.of((dim(lift(n) + 1),), lambda i, Pf=Pf: Pf(i)), SArr.of((nnz,), lambda e, Cf=Cf: Cf(e))
        inr = lambda x, lo, hi: T.and_(T.le(T.const(0), x), T.le(x, lift(hi)))
        c.fact(Pn, lambda a, t, n=n, nnz=nnz, Pf=Pf: T.and_(T.implies(inr(a[0], 0, n), inr(t, 0, nnz)),
               T.implies(T.and_(T.le(T.const(0), a[0]), T.lt(a[0], lift(n))), T.lt(t, Pf(a[0] + 1))),
               T.implies(T.and_(T.lt(T.const(0), a[0]), T.le(a[0], lift(n))), T.lt(Pf(a[0] - 1), t))))

        def col(a, t, n=n, nnz=nnz, K=K, Pn=Pn, Pf=Pf, Cf=Cf):
            r = [T.implies(T.and_(T.le(T.const(0), a[0]), T.lt(a[0], nnz)), T.and_(T.le(T.const(0), t), T.lt(t, lift(K))))]
            if a[0].op == "app" and a[0].args[0] == Pn:
                i = a[0].args[1]
                r.append(T.implies(T.and_(T.le(T.const(0), i), T.lt(i, lift(n))), T.le(Cf(Pf(i)), Cf(Pf(i + 1) - 1))))
            return T.and_(*r)
        c.fact(Cn, col)


def make(P, cls, st, world):
    def h(c):
        Y = M.build(P, c, st)
        mu = Y.mu
        matrices(c, Y, mu)
        contracts(c, Y, mu, world)
        before = M.snapshot(mu)
        sf, limit = T.sym("sf"), T.sym("limit", "I")
        c.assume(T.le(T.real(0), sf), T.le(sf, T.real(1)), T.le(T.const(1), limit))
        S = ctx.call(cls().run, mu, sf=sf, n_sample_max=limit)
        total = lift(Y.Nmu)
        f = T.ite(T.lt(T.toreal(limit), T.toreal(total) * sf), T.toreal(limit) / T.toreal(total), sf)
        ns, n = len(Y.Nm), [lift(x) for x in S.idx["Nm"]]
        c.oblige("one count per series", lift(len(n) == ns))
        off = [T.const(0)]
        for x in n: off.append(off[-1] + x)
        voff = [T.const(0)]
        for v, s, pos in Y.blocks: voff.append(voff[-1] + n[s])
        want = {"Nm": n, "cNm": off, "N_var": [n[s] for v, s, pos in Y.blocks], "idx": voff}
        for q in mu.idx:
            c.oblige("index %s" % q, M.same([lift(x) for x in S.idx[q]], want[q]) if q in want else M.same(S.idx[q], before["idx"][q]))
        c.oblige("no index dropped or invented", lift(sorted(S.idx) == sorted(mu.idx)))
        per = {"ks": S.ks, "time1": S.time1, "time2": S.time2}
        for nm, on in (("across_track_index1", 1), ("across_track_index2", 1), ("along_track_index1", 2), ("along_track_index2", 2)):
            if Y.opt[on]: per[nm] = getattr(S, nm)
            else: c.oblige(nm + " absent when it is absent in the data", lift(getattr(S, nm) is None))
        for nm, x in per.items(): c.oblige(nm + ": one per sampled match-up", T.and_(lift(x.ndim == 1), T.eq(lift(x.shape[0]), off[-1])))
        c.oblige("values: one per block and sampled match-up", T.and_(lift(S.values.ndim == 1), T.eq(lift(S.values.shape[0]), voff[-1])))
        c.oblige("one uncertainty per block and series", lift(len(S.unc) == len(Y.blocks) and len(S.unck) == ns))
        name = {"ks": "ks", "time1": "time1", "time2": "time2", "across_track_index1": "ac1", "across_track_index2": "ac2", "along_track_index1": "al1", "along_track_index2": "al2"}
        for s in range(ns):
            t, ht = M.generic(c, "t", n[s])
            c.oblige("series %d: no more than the requested fraction" % s, T.and_(T.le(T.const(0), n[s]), T.le(T.toreal(n[s]), f * T.toreal(lift(Y.Nm[s])))))
            # which original match-up the sampled one is: read off the adjustment factors (an application of ks)
            orig = original(c, S.ks.at(off[s] + t), ht)
            if orig is None:
                c.oblige("series %d: an original match-up" % s, T.sym("undetermined", "B"), ht)
                continue
            m = orig - lift(Y.cNm[s])
            c.oblige("series %d: an original match-up of the same series" % s, T.and_(T.le(T.const(0), m), T.lt(m, lift(Y.Nm[s]))), ht)
            for nm, x in per.items():
                c.oblige("series %d: %s of that match-up" % (s, nm), T.eq(x.at(off[s] + t), T.app(name[nm], [orig])), ht)
            u = S.unck[s]
            c.oblige("series %d: adjustment factor uncertainty of that match-up" % s, T.and_(lift(u.typeID == 1), T.eq(lift(u.uR.shape[0]), n[s]), T.eq(u.uR.at(t), T.app("uK%d" % s, [m]))), ht)
            for b, (v, ss, pos) in enumerate(Y.blocks):
                if ss != s: continue
                c.oblige("block %d: value of that match-up" % b, T.eq(S.values.at(voff[b] + t), T.app("val", [lift(Y.off_o[b]) + m])), ht)
                u = S.unc[b]
                c.oblige("block %d: independent uncertainty, one per sampled match-up" % b, T.and_(lift(u.typeID == 1), T.eq(lift(u.uR.shape[0]), n[s])), ht)
                if Y.form[b] in (1, 2): c.oblige("block %d: uncertainty of that match-up" % b, T.eq(u.uR.at(t), T.app(Y.uR[b], [m])), ht)
                else:
                    Pf, Cf = lambda i: T.app("P%d" % Y.w[b], [i], "I"), lambda e: T.app("C%d" % Y.w[b], [e], "I")
                    lo, hi = Cf(Pf(m)), Cf(Pf(m + 1) - 1) + 1
                    k = T.fresh("k", "I")
                    uu = lambda x: T.app("u%d" % Y.u[b], [x])
                    sq = T.sum_(k, 0, hi - lo, uu(lo + k) * uu(lo + k))
                    # (root mean square of the window: stated without roots, see sqrt in DESIGN.md)
                    got = u.uR.at(t)
                    c.oblige("block %d: uncertainty propagated through that match-up's window" % b, T.and_(T.eq(got * got * T.toreal(hi - lo), sq), T.le(T.real(0), got)), ht + [T.le(T.real(0), sq)])
            # two different sampled match-ups
            p, q = T.sym("p", "I"), T.sym("q", "I")
            hp = [T.le(T.const(0), p), T.lt(p, n[s]), T.le(T.const(0), q), T.lt(q, n[s]), T.not_(T.eq(p, q))]
            op, oq = original(c, S.ks.at(off[s] + p), hp), original(c, S.ks.at(off[s] + q), hp)
            if op is None or oq is None: continue
            lem = pair_facts(world["names"], op - lift(Y.cNm[s]), oq - lift(Y.cNm[s]))
            c.oblige("series %d: distinct match-ups" % s, T.not_(T.eq(op, oq)), hp + lem)
            if any(Y.blocks[b][1] == s for b in Y.w):
                c.oblige("series %d: no shared variable" % s, indep(s, op - lift(Y.cNm[s]), oq - lift(Y.cNm[s])), hp + lem)
        for q in ("a", "sensor_model", "sensor_model_constant", "adjustment_model"):
            c.oblige(q + " passed through", M.same(M.freeze(getattr(S, q)), before[q]))
        c.oblige("input unmodified: %s" % ",".join(M.unchanged(mu, before)), lift(not M.unchanged(mu, before)))
    return h
