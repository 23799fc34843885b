"""Time averages and binned statistics.

Calendar contract (trusted: datetime, dateutil): for each of hour, day, month and year the instants split into consecutive
intervals; interval number k starts at start(k), start is strictly increasing, a datetime built from the leading fields of an
instant is the start of its interval, and adding one period to a start gives the next start.  The loop over intervals carries a
declared invariant (`Intervals`): after n turns the intervals first, .., first+n-1 are listed, each with its own average."""
import types
from pyvc import loader, terms as T, ctx
from pyvc.arr import SArr
from pyvc.instrument import Declared
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M

TRUSTED = ["numpy element-wise, selection by mask and reductions (pyvc/npmodel.py); average and standard deviation of no elements are NaN",
           "datetime and dateutil.relativedelta: calendar intervals are consecutive and strictly increasing, the leading fields of an instant name its interval, one period after a start is the next start",
           "numpy min and max of times: attained bounds"]
ASSUMPTIONS = ["real arithmetic for samples and bin edges", "number of bins fixed per structure (1, 2, 3, 7, 20), sample numbers unbounded", "times without time zone"]
LEVEL = {"year": 1, "month": 2, "day": 3, "hour": 4}


class Instant(object):
    """An instant: its real number, and its number k if it is the start of an interval of a level."""

    def __init__(self, t, level=None, k=None): self.t, self.level, self.k = t, level, k

    def other(self, o):
        if not isinstance(o, Instant): raise T.Unsupported("comparison of a time with something else")
        return o

    def cmp(self, o, op):
        if isinstance(o, Times): return NotImplemented
        o = self.other(o)
        if self.level is not None and self.level == o.level: return op(self.k, o.k)
        return op(self.t, o.t)
    def __lt__(self, o): return self.cmp(o, T.lt)
    def __le__(self, o): return self.cmp(o, T.le)
    def __gt__(self, o): return self.cmp(o, lambda a, b: T.lt(b, a))
    def __ge__(self, o): return self.cmp(o, lambda a, b: T.le(b, a))
    def __eq__(self, o): return self.cmp(o, T.eq)
    def __ne__(self, o): return self.cmp(o, lambda a, b: T.not_(T.eq(a, b)))
    __hash__ = None

    def __add__(self, d):
        if not isinstance(d, Delta): raise T.Unsupported("addition to a time")
        if d.level == self.level: return start(d.level, self.k + d.n)
        raise T.Unsupported("a period added to an instant that does not start one")
    __radd__ = __add__

    def __sub__(self, d):
        if isinstance(d, Delta): return self + Delta(d.level, -d.n)
        raise T.Unsupported("subtraction from a time")

    def timetuple(self): return [Field(self, j) for j in range(9)]
    year, month, day, hour = [property(lambda self, j=j: Field(self, j)) for j in range(4)]


class Field(object):
    def __init__(self, t, j): self.of, self.j = t, j


class Delta(object):
    def __init__(self, level, n): self.level, self.n = level, n

    def __mul__(self, k): return Delta(self.level, self.n * k)
    __rmul__ = __mul__


def start(level, k): return Instant(T.app("start", [lift(k)]), level, lift(k))


def number(level, t): return T.app("interval", [lift(t)], "I")


def datetime_model(*a, **k):
    if k: raise T.Unsupported("datetime keywords")
    lead = 0
    while lead < len(a) and isinstance(a[lead], Field): lead += 1
    rest = list(a[lead:])
    if not lead or any(f.of is not a[0].of or f.j != j for j, f in enumerate(a[:lead])): raise T.Unsupported("datetime of other numbers")
    if lead > 4 or len(a) < 3 or any(isinstance(x, Field) for x in rest): raise T.Unsupported("datetime of other fields")
    least = [None, 1, 1, 0, 0, 0, 0]
    if rest != least[lead:len(a)]: raise T.Unsupported("datetime that does not start an interval")
    w = ctx.current().world
    if lead != w.level: raise T.Unsupported("interval of another length than asked for")
    return start(lead, number(lead, a[0].of.t))


def relativedelta(**k):
    if len(k) != 1: raise T.Unsupported("relativedelta")
    (nm, n), = k.items()
    if nm not in ("hours", "days", "months", "years"): raise T.Unsupported("relativedelta " + nm)
    return Delta(LEVEL[nm[:-1]], n)


class Times(object):
    """An array of times."""

    def __init__(self, n, w): self.n, self.w, self.shape, self.ndim, self.size = n, w, (n,), 1, n

    def __symlen__(self): return self.n
    def at(self, i): return T.app("time", [lift(i)])
    def min(self): return self.w.tmin
    def max(self): return self.w.tmax

    def cmp(self, o, op):
        if not isinstance(o, Instant): raise T.Unsupported("comparison of times with something else")
        return SArr.of((self.n,), lambda i: op(self.at(i), o.t))
    def __lt__(self, o): return self.cmp(o, T.lt)
    def __le__(self, o): return self.cmp(o, T.le)
    def __gt__(self, o): return self.cmp(o, lambda a, b: T.lt(b, a))
    def __ge__(self, o): return self.cmp(o, lambda a, b: T.le(b, a))


class Items(object):
    """A list of symbolic length: n elements get(i), then those appended."""
    __pyvc_mutable__ = True

    def __init__(self, n, get): self.n, self.get, self.new = n, get, []

    def append(self, x): self.new.append(x)
    def __symlen__(self): return lift(self.n) + len(self.new)
    def __pyvc_array__(self): return self
    def astype(self, *a): return self
    @property
    def shape(self): return (self.__symlen__(),)

    def at(self, i):
        r = self.get(lift(i))
        for j, x in enumerate(self.new):
            same = T.eq(lift(i), lift(self.n) + j)
            if isinstance(r, Instant): r = Instant(T.ite(same, x.t, r.t))
            else: r = T.ite(same, lift(x), r)
        return r


class World(object): pass


def harnesses(tree, tier):
    mods = {}
    d = types.ModuleType("datetime"); d.datetime = datetime_model
    for nm in ("timedelta", "date", "time"): setattr(d, nm, None)
    du, rd = types.ModuleType("dateutil"), types.ModuleType("dateutil.relativedelta")
    rd.relativedelta = relativedelta; du.relativedelta = rd
    mods.update({"datetime": d, "dateutil": du, "dateutil.relativedelta": rd})
    P = loader.Program(tree, models=mods)
    asarray = P.np.asarray
    P.np.asarray = P.np.array = lambda x, *a, **k: x if isinstance(x, (Items, Times)) else asarray(x, *a, **k)
    mod = P.load("harmonisation.core.utils.stats")
    inv = Intervals()
    P.loops["time_average#2"] = inv
    out = [Harness("time averages: %s" % (per or "default"), averages(P, mod, per, inv), ["stats.time_average"]) for per in ("hour", "day", "month", "year", None)]
    for n in (1, 2, 3, 7, 20):
        for given in ("given", "of the data"): out.append(Harness("%d bins, range %s" % (n, given), bins(P, mod, n, given), ["stats.bin"], structure="%d bins" % n))
    return out


def share(w, k):
    """Average of the samples of interval k, NaN without samples (the documented statement)."""
    i = T.fresh("s", "I")
    t = T.app("time", [i])
    inside = T.and_(T.le(T.app("start", [k]), t), T.lt(t, T.app("start", [k + 1])))
    n = T.sum_(i, 0, w.n, T.ite(inside, T.real(1), T.real(0)))
    return T.ite(T.eq(n, T.real(0)), T.NAN, T.sum_(i, 0, w.n, T.ite(inside, T.app("y", [i]), T.real(0))) / n)


class Intervals(Declared):
    def entry(self, c, env):
        w = c.world
        c.oblige("before the loop: nothing listed", lift(len(env["averages"]) == 0 and len(env["average_times"]) == 0))
        c.oblige("before the loop: first interval is that of the earliest sample", T.eq(env["current_time"].k, w.first))
        c.oblige("before the loop: last interval is that of the latest sample", T.eq(env["last_time"].k, w.last))

    def havoc(self, c, env, k, n):
        w = c.world
        w.turns = T.sym("turns", "I")
        c.assume(T.le(T.const(0), w.turns), T.le(w.turns, w.last - w.first + 1))
        w.av, w.at = Items(w.turns, lambda i: share(w, w.first + i)), Items(w.turns, lambda i: start(w.level, w.first + i))
        return {"averages": w.av, "average_times": w.at, "current_time": start(w.level, w.first + w.turns)}, [w.av, w.at]

    def preserve(self, c, env, k, n):
        w = c.world
        c.oblige("turn: one interval listed", lift(env["averages"] is w.av and env["average_times"] is w.at and len(w.av.new) == 1 and len(w.at.new) == 1))
        c.oblige("turn: next interval follows", T.eq(env["current_time"].k, w.first + w.turns + 1))
        c.oblige("turn: its own start", T.eq(w.at.new[0].t, T.app("start", [w.first + w.turns])))
        c.oblige("turn: average of its samples", T.eq(lift(w.av.new[0]), share(w, w.first + w.turns)))


def averages(P, mod, per, inv):
    def h(c):
        w = c.world = World()
        w.level = LEVEL[per or "month"]
        w.n = T.sym("N", "I")
        c.assume(T.le(T.const(1), w.n))
        times, y = Times(w.n, w), SArr.of((w.n,), lambda i: T.app("y", [lift(i)]))
        lo, hi = T.sym("imin", "I"), T.sym("imax", "I")
        for x in (lo, hi): c.assume(T.le(T.const(0), x), T.lt(x, w.n))
        w.tmin, w.tmax = Instant(times.at(lo)), Instant(times.at(hi))
        inside = lambda i: T.and_(T.le(T.const(0), i), T.lt(i, w.n))
        c.fact("time", lambda a, t: T.implies(inside(a[0]), T.and_(T.le(w.tmin.t, t), T.le(t, w.tmax.t))))
        w.first, w.last = number(w.level, w.tmin.t), number(w.level, w.tmax.t)
        # interval numbers: monotone, and an instant lies between the starts of its own and the next interval
        c.fact("interval", lambda a, k: T.and_(T.le(T.app("start", [k]), a[0]), T.lt(a[0], T.app("start", [k + 1]))))
        c.assume(T.le(w.first, w.last))
        av, at = ctx.call(mod.time_average, y, times, *([per] if per else []))
        want = w.last - w.first + 1
        c.oblige("one average per interval", T.eq(lift(av.shape[0]), want))
        c.oblige("one time per interval", T.eq(lift(at.shape[0]), want))
        i, hi_ = M.generic(c, "i", want)
        c.oblige("intervals without gaps from the earliest sample's", T.eq(at.at(i).t, T.app("start", [w.first + i])), hi_)
        c.oblige("mean of exactly the interval's samples, NaN without any", T.eq(lift(av.at(i)), share(w, w.first + i)), hi_)
        j, hj = M.generic(c, "j", w.n)
        c.oblige("every sample lies within the listed intervals", T.and_(T.le(T.app("start", [w.first]), times.at(j)), T.lt(times.at(j), T.app("start", [w.first + want]))), hj)
        c.oblige("samples unmodified", M.same(y, SArr.of((w.n,), lambda i: T.app("y", [lift(i)]))))
    return h


def bins(P, mod, n, given):
    def h(c):
        N = T.sym("N", "I")
        c.assume(T.le(T.const(1), N))
        y, x = [SArr.of((N,), lambda i, nm=nm: T.app(nm, [lift(i)])) for nm in "yx"]
        I = "integer" in given
        if I and "data" in given: x = SArr.of((N,), lambda i: T.app("x", [lift(i)], "I"))
        y0, x0 = M.freeze(y), M.freeze(x)
        if "given" in given:
            lo, hi = T.sym("lo", "I" if I else "R"), T.sym("hi", "I" if I else "R")
            c.assume(T.lt(lo, hi))
            r = ctx.call(mod.bin, y, x, bins=n, X_range=[lo, hi])
        else:
            lo, hi = P.np.min(x), P.np.max(x)
            c.assume(T.lt(lo, hi))
            r = ctx.call(mod.bin, y, x, bins=n)
        av, sd, mid = r
        for nm, a in (("mean", av), ("standard deviation", sd), ("centre", mid)): c.oblige("one %s per bin" % nm, T.and_(lift(a.ndim == 1), T.eq(lift(a.shape[0]), T.const(n))))
        lo, hi = T.toreal(lift(lo)), T.toreal(lift(hi))
        edge = lambda b: lo + (hi - lo) * b / n
        for b in range(n):
            k = T.fresh("s", "I")
            X, Y = T.toreal(x0.at(k)), T.app("y", [k])
            inside = T.and_(T.le(edge(b), X), T.lt(X, edge(b + 1)) if b < n - 1 else T.le(X, hi))
            m = T.sum_(k, 0, N, T.ite(inside, T.real(1), T.real(0)))
            none = T.eq(m, T.real(0))
            mean = T.sum_(k, 0, N, T.ite(inside, Y, T.real(0))) / m
            M_ = T.ite(none, T.NAN, mean)
            var = T.sum_(k, 0, N, T.ite(inside, (Y - M_) * (Y - M_), T.real(0))) / m
            c.oblige("bin %d: mean of exactly its samples, NaN without any" % b, T.eq(lift(av.at(T.const(b))), M_))
            c.oblige("bin %d: standard deviation of exactly its samples" % b, T.eq(lift(sd.at(T.const(b))), T.ite(none, T.NAN, T.fn("sqrt", var))))
            c.oblige("bin %d: centre" % b, T.eq(lift(mid.at(T.const(b))), (edge(b) + edge(b + 1)) / 2))
        c.oblige("samples unmodified", T.and_(M.same(y, y0), M.same(x, x0)))
    return h
