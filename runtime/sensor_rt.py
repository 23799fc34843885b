"""Run-time contract of the sensor models: measurand and derivative columns against the specification function.
Derivatives of the specification are taken by the complex-step method (exact to rounding)."""
import numpy as np
from specs import sensors as S


def deriv(spec, vals, k, h=1e-30):
    z = [complex(v) for v in vals]
    z[k] += 1j * h * max(1.0, abs(vals[k]))
    return spec(z).imag / (h * max(1.0, abs(vals[k])))


def compare(key, spec, x, a, R, J, fails, rtol=1e-7, known=None, cols=None):
    """spec(list of all inputs) for one row."""
    n, nv = x.shape
    ncol = nv + len(a)
    if not isinstance(R, np.ndarray) or R.shape != (n,): fails.append((key + ":measurand shape", "shape %s for %d match-ups" % (getattr(R, "shape", None), n)))
    else:
        for i in range(n):
            s = spec(i, list(x[i]) + list(a))
            s = s.real if isinstance(s, complex) else s
            if not abs(R[i] - s) <= rtol * max(abs(s), 1e-300) + 1e-300:
                fails.append((key + ":measurand", "row %d of %s: returned %r, calibration equation %r" % (i, x.tolist(), R[i], s)))
                break
    if J is None or J.shape != (n, ncol):
        fails.append((key + ":derivative shape", "shape %s, expected %s" % (getattr(J, "shape", None), (n, ncol))))
        return
    for c in range(ncol):
        for i in range(n):
            vals = list(x[i]) + list(a)
            d = deriv(lambda z: spec(i, z), vals, c)
            scale = max(abs(d), 1e-300)
            if not abs(J[i, c] - d) <= max(rtol, 1e-6) * scale + (cols or {}).get("abs", 0.0):
                if known is not None and c in known(i, vals):
                    w = known(i, vals)[c]
                    if abs(J[i, c] - w) <= 2e-6 * max(abs(w), 1e-300):
                        fails.append((key + ":known column %d" % c, "column %d is %r, true derivative %r" % (c, J[i, c], d)))
                        break
                fails.append((key + ":derivative column %d" % c, "row %d, inputs %s: column %d is %r, partial derivative is %r" % (i, vals, c, J[i, c], d)))
                break


def unmodified(key, before, after, fails):
    for b, a in zip(before, after):
        if b is None: continue
        if not np.array_equal(np.asarray(b), np.asarray(a), equal_nan=True): fails.append((key + ":inputs modified", "an input array was changed in place"))
