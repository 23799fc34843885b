"""Terms of the Gauss-Newton contracts: preconditioned direction, directional derivative of a residual term."""
from pyvc import terms as T
from pyvc.terms import lift


def direction(Y, Sf, v):
    """d = P v: identity on the variables, S on the parameters; function of a flat index (constant offset for parameters)."""
    def d(k):
        k = lift(k)
        off = k - Y.Nvar
        if T.is_const(off) and off.args[0] >= 0: return sum((Sf(lift(int(off.args[0])), T.const(j)) * v(Y.Nvar + j) for j in range(Y.na)), T.real(0))
        return v(k)
    return d


def ddir(c, t, d, Y, memo=None):
    """Directional derivative of the residual term t along d, from the callee contracts:
    d z(k) = d(k);  d R_q(row) = sum_k dR_q_k(row) d row_k;  d B_q(r) = JB_q(r) d r."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None: return r
    op = t.op
    if op in ("const", "sym"): r = T.real(0)
    elif op == "toreal": r = ddir(c, t.args[0], d, Y, memo) if t.args[0].sort != "I" else T.real(0)
    elif op == "app":
        f = t.args[0]
        if f == "z": r = d(t.args[1])
        elif f.startswith("R") and f[1:].isdigit():
            r = T.real(0)
            q = int(f[1:])
            nx = Y.ms[q] + Y.npar[q]
            for k in range(nx):
                da = ddir(c, t.args[1 + k], d, Y, memo)
                if not T.is_const(da, 0): r = r + T.app("dR%d_%d" % (q, k), t.args[1:]) * da
            for a in t.args[1 + nx:]:
                if not T.is_const(ddir(c, a, d, Y, memo), 0): raise T.Unsupported("constant argument of a sensor model depends on the state")
        elif f.startswith("B") and f[1:].isdigit(): r = T.app("J" + f, t.args[1:]) * ddir(c, t.args[1], d, Y, memo)
        else:
            for a in t.args[1:]:
                if a.sort == "R" and not T.is_const(ddir(c, a, d, Y, memo), 0): raise T.Unsupported("derivative through " + f)
            r = T.real(0)
    elif op == "add": r = T._fold(T.add, [ddir(c, a, d, Y, memo) for a in t.args])
    elif op == "mul":
        r = T.real(0)
        for i, a in enumerate(t.args):
            da = ddir(c, a, d, Y, memo)
            if not T.is_const(da, 0): r = r + T._fold(T.mul, [da] + [b for j, b in enumerate(t.args) if j != i])
    elif op == "div":
        if not T.is_const(ddir(c, t.args[1], d, Y, memo), 0): raise T.Unsupported("derivative of a quotient")
        r = T.div(ddir(c, t.args[0], d, Y, memo), t.args[1])
    elif op == "sum": r = T.sum_(t.args[0], t.args[1], t.args[2], ddir(c, t.args[3], d, Y, memo))
    elif op == "ite":
        a, b = ddir(c, t.args[1], d, Y, memo), ddir(c, t.args[2], d, Y, memo)
        r = a if a is b else T.ite(t.args[0], a, b)
    else: raise T.Unsupported("derivative of " + op)
    memo[t] = r
    return r
