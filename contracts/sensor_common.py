"""Contract of a sensor model: (variables, parameters, constants, across, along, time) -> (measurand, derivatives)."""
from pyvc import terms as T, ctx, poly
from pyvc.arr import SArr
from pyvc.run import Harness

AV = "sensor_data/AVHRR/AVHRR_sensor_models.py"


def col_check(c, name, got, spec):
    c.oblige(name, T.eq(T.toreal(T.lift(got)), T.toreal(T.lift(spec))))


def row_inputs(c, nvar, npar):
    n = T.sym("n", "I")
    c.assume(n >= 0)
    X = SArr.of((n, nvar), lambda i, k: T.app("X", [i, k]))
    a = SArr.of((npar,), lambda k: T.app("a", [k]))
    i = T.sym("i", "I")
    c.assume(i >= 0, i < n)
    return n, X, a, i


def tracks(n):
    return [SArr.of((n,), lambda i, s=s: T.app(s, [i])) for s in ("across", "along", "time")]


def check_result(c, res, n, X, a, i, spec, nvar, npar, tag, known=None, cols=None):
    """spec(x_row, a_list) -> term; derivative columns against symbolic differentiation of the spec."""
    c.oblige(tag + "returns (measurand, derivatives)", T.lift(isinstance(res, tuple) and len(res) == 2))
    R, J = res
    c.oblige(tag + "measurand has one entry per match-up", T.and_(T.lift(R.ndim == 1), T.eq(T.lift(R.shape[0]), n)))
    x = [X.at(i, k) for k in range(nvar)]
    p = [a.at(k) for k in range(npar)]
    s = T.lift(spec(x, p))
    col_check(c, tag + "measurand", R.at(i), s)
    c.oblige(tag + "one derivative column per variable and parameter",
             T.and_(T.eq(T.lift(J.shape[0]), n), T.eq(T.lift(J.shape[1]), T.const(nvar + npar))))
    for k in (cols or range(nvar + npar)):
        atom = x[k] if k < nvar else p[k - nvar]
        d = T.diff(s, T.lift(atom))
        if known and k in known and poly.valid_eq(T.toreal(J.at(i, k)), T.toreal(T.lift(known[k](x, p)))):
            c.notes.add("known-finding column %d" % k)
            continue
        col_check(c, tag + "derivative column %d" % k, J.at(i, k), d)


def ref_harness(model, tag):
    def h(c):
        n, X, a, i = row_inputs(c, 1, 0)
        ac, al, tm = tracks(n)
        f0 = X.store.fn
        R, J = ctx.call(model, X, a, SArr.of((0,), lambda k: T.real(0)), ac, al, tm)
        c.oblige(tag + "reference: no derivatives", T.lift(J is None))
        c.oblige(tag + "reference: one measurand per match-up", T.and_(T.lift(R.ndim == 1), T.eq(T.lift(R.shape[0]), n)))
        col_check(c, tag + "reference: measurand is its variable", R.at(i), X.at(i, 0))
        c.oblige(tag + "reference: inputs unmodified", T.lift(X.store.fn is f0))
    return h
