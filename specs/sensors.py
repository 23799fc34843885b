"""Specification functions of the sensor models (written from the calibration equations, generic over number type)."""

# AVHRR channels: name -> (kind, n variables, n parameters, rescaled)
AVHRR = {}
for _ch in ("11um", "12um"):
    for _n, _k in (("3", "3"), ("4", "4")):
        AVHRR["AVHRR_%s_%s" % (_ch, _n)] = (_k, False)
        AVHRR["AVHRR_%s_%s_rescaled" % (_ch, _n)] = (_k, True)
for _n in ("2", "3"):
    AVHRR["AVHRR_37um_%s" % _n] = ("37_" + _n, False)
    AVHRR["AVHRR_37um_%s_rescaled" % _n] = ("37_" + _n, True)
AVHRR["AVHRR_sim_3"] = ("3", False)
AVHRR["AVHRR_sim_4"] = ("4", False)
AVHRR["test_sim"] = ("3", False)
KIND = {"3": (4, 3), "4": (5, 4), "37_2": (4, 2), "37_3": (5, 3)}        # variables, parameters


def avhrr(kind, scaled, x, a):
    """Radiance: a0 + (0.98514 + a1) L_ict (C_s - C_e)/(C_s - C_ict) + a2 (C_ict - C_e)(C_s - C_e) + a3 T_orb."""
    Cs, Cict, Ce, Lict = x[0], x[1], x[2], x[3]
    k = 1000 if scaled else 1
    r = a[0] + (0.98514 + a[1] / k) * Lict * (Cs - Ce) / (Cs - Cict)
    n = 2
    if kind in ("3", "4"):
        r = r + a[n] / (k * k) * (Cict - Ce) * (Cs - Ce)
        n += 1
    if kind in ("4", "37_3"):
        T = x[4] - 285.0 if scaled else x[4]
        r = r + a[n] / k * T
    return r


def planck(exp, v, T):
    H, C, KB = 6.626070040e-34, 299792458, 1.38064852e-23
    return 2.0 * H * v ** 3 / C ** 2 / (exp(v * H / (KB * T)) - 1)


def hirs(exp, x, a, c):
    """Radiance from counts: c = (central frequency, band correction offset, band correction slope)."""
    Cs, Cict, Ce, Tict, Rself = x
    L = planck(exp, c[0], c[1] + c[2] * Tict)
    return a[0] + (0.98 + a[1]) * L * (Ce - Cs) / (Cict - Cs) + a[2] * (Ce - Cict) * (Ce - Cs) - Rself


def mw(exp, cos, pi, x, a, c, g, pixel):
    """Rayleigh-Jeans brightness temperature; c = last nine sensor constants (w1..w5, v, a, b, dTw)."""
    CS, CICT, T1, T2, T3, T4, T5, CE = x[:8]
    w = c[0:5]
    v, al, be, dTw = c[5:9]
    T = (w[0] * T1 + w[1] * T2 + w[2] * T3 + w[3] * T4 + w[4] * T5) / (w[0] + w[1] + w[2] + w[3] + w[4])
    TC = 2.72548
    LICT, LS, LCMB = planck(exp, v, al + be * (T + dTw)), planck(exp, v, al + be * (TC + a[2])), planck(exp, v, al + be * TC)
    slope = (LICT - LS) / (CICT - CS)
    L0 = LICT + slope * (CE - CICT) + a[0] * (LICT - LCMB) ** 2 / (CICT - CS) ** 2 * (CE - CICT) * (CE - CS)
    cosangs = cos(2 * (pi * 1.111 * (pixel - 45.5) / 180.0)) - cos(2 * (pi * 73.6 / 180.0))
    L1 = L0 + 0.5 * a[1] * cosangs * (LICT - L0)
    L = 1.0 / g * (L1 - (1.0 - g) * LCMB)
    C, KB = 299792458, 1.38064852e-23
    return C ** 2 / (2.0 * v ** 2 * KB) * L


def mw_known_columns(exp, cos, pi, x, a, c, g, pixel):
    """The derivative columns the pinned code returns instead of the true derivatives (known findings)."""
    H, C, KB = 6.626070040e-34, 299792458, 1.38064852e-23
    CS, CICT, T1, T2, T3, T4, T5, CE = x[:8]
    w = c[0:5]
    v, al, be, dTw = c[5:9]
    wt = w[0] + w[1] + w[2] + w[3] + w[4]
    T = (w[0] * T1 + w[1] * T2 + w[2] * T3 + w[3] * T4 + w[4] * T5) / wt
    TC = 2.72548
    LICT, LS, LCMB = planck(exp, v, al + be * (T + dTw)), planck(exp, v, al + be * (TC + a[2])), planck(exp, v, al + be * TC)
    L0 = LICT + (LICT - LS) / (CICT - CS) * (CE - CICT) + a[0] * (LICT - LCMB) ** 2 / (CICT - CS) ** 2 * (CE - CICT) * (CE - CS)
    ca = cos(2 * (pi * 1.111 * (pixel - 45.5) / 180.0)) - cos(2 * (pi * 73.6 / 180.0))
    ar = al + be * (T + dTw)
    RJ = C ** 2 / (2.0 * v ** 2 * KB)
    D, dC = LICT - LS, CICT - CS
    q = 2 * CE - CICT - CS
    dT = 1.0 / g * (1 + (CE - CICT) / dC + 2 * a[0] * (CE - CS) * (CE - CICT) * D / dC ** 2) * \
        (LICT * (2 * H * v * KB * be) / (KB * ar) ** 2 * exp(H * v / (KB * ar)) / (exp(H * v / (KB * ar)) - 1))
    cols = {0: 1.0 / g * (CE - CICT) * D / dC ** 2 * (1 + a[0] * q / dC),
            1: 1.0 / g * (CE - CS) * D / dC ** 2 * (1 + a[0] * D * q / dC),
            7: 1.0 / g * (D / dC + a[0] * D ** 2 / dC ** 2) * q,
            9: 1.0 / g * (CE - CS) * (CE - CICT) * D ** 2 / dC ** 2,
            11: -1.0 / g * (CE - CICT) / dC * (1.0 + 2.0 * a[0] * (CE - CS) * D / dC) * (1.0 - a[1] / (2.0 * g) * ca)}
    for n in range(5): cols[2 + n] = dT * w[n] / wt
    return {k: RJ * val for k, val in cols.items()}
