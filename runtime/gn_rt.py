"""Set-up of the Gauss-Newton and preconditioner code under test, and independent reference formulas."""
import os, sys
import numpy as np
import scipy.sparse as sp
from runtime import gen, boot

EIV = "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/"
_state = {}


def modules():
    """Real modules; the compiled counterpart is built from the mirrored tree in scratch."""
    if _state: return _state
    boot.inject()
    d = os.path.join(boot.TREE, EIV)
    pc = os.path.join(boot.TREE, os.path.dirname(EIV.rstrip("/")), "harmonisation_eiv_pc")
    sys.path[:0] = [d, pc]
    try:
        boot.compile_pyx(EIV + "cython_lib_GN_algo.pyx", "cython_lib_GN_algo")
    except boot.HarnessError:
        import types
        m = types.ModuleType("cython_lib_GN_algo"); m.unconvert_Xs = None
        sys.modules["cython_lib_GN_algo"] = m
        for q in ("harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv.",): sys.modules[q + "cython_lib_GN_algo"] = m
    so = np.set_printoptions
    def spo(*a, **k):
        if k.get("threshold") is not None and k["threshold"] != k["threshold"]: k["threshold"] = sys.maxsize
        return so(*a, **k)
    np.set_printoptions = spo
    P = "harmonisation.core.matchup."
    import importlib
    GP = P + "matchupToolbox.harmonisation.harmonisationProcessing."
    _state["GN"] = importlib.import_module(GP + "harmonisation_eiv.GN_algo")
    _state["T"] = importlib.import_module(P + "matchupProcessing.transform2normind.Transform2NormInd").Transform2NormInd
    _state["MM"] = importlib.import_module(P + "matchupToolbox.utils.matchup_maths")
    _state["GP"] = GP
    return _state


def pc_module():
    import importlib
    modules()
    if "PC" not in _state: _state["PC"] = importlib.import_module(_state["GP"] + "harmonisation_eiv_pc.pc_algo")
    return _state["PC"]


def n_sys(mu): return max([0] + [u.uS_i for u in mu.unc if u.typeID in (2, 4)])


def normalised(mu, L):
    """Normalised independent form, computed independently of Transform2NormInd; weighted blocks get arbitrary values."""
    import copy
    from harmonisation.core.matchup.matchupIO.MatchUp import MatchUp
    ns = n_sys(mu)
    Nv, idx = [], [0]
    for b, u in enumerate(mu.unc):
        Nv.append(L.N_var[b] if u.typeID in (1, 2) else len(mu.u_matrices[u.u_i]))
        idx.append(idx[-1] + Nv[-1])
    start = list(idx)
    idx[-1] += ns
    N = MatchUp()
    for k, v in vars(mu).items(): setattr(N, k, v)
    N.idx = copy.deepcopy(mu.idx); N.idx["N_var"], N.idx["idx"] = Nv, idx
    N._original_idx = copy.deepcopy(mu._original_idx)
    v = np.zeros(idx[-1])
    for b, u in enumerate(mu.unc):
        if u.typeID in (1, 2): v[start[b]:start[b] + Nv[b]] = mu.values[L.idx[b]:L.idx[b + 1]] / u.uR
        else:
            w = mu.w_matrices[u.w_i].toarray().astype(float); uu = np.asarray(mu.u_matrices[u.u_i], dtype=float)
            v[start[b]:start[b] + Nv[b]] = np.linalg.lstsq(w * uu, mu.values[L.idx[b]:L.idx[b + 1]].astype(float), rcond=None)[0]
    N.values = v.astype(np.float32)
    N.ks = np.concatenate([mu.ks[L.cNm[s]:L.cNm[s + 1]] / mu.unck[s].uR for s in range(len(L.Nm))])
    return N, start, Nv, ns


def ref_X(mu, L, start, Nv, ns, z, s, pos):
    """De-normalised variables of sensor position pos of series s from state z: rows match-ups, columns variables."""
    tot = start[-1]
    cols = []
    for b, (v, ss, pp) in enumerate(L.blocks):
        if (ss, pp) != (s, pos): continue
        u = mu.unc[b]
        zb = z[start[b]:start[b] + Nv[b]].astype(float)
        sysv = float(z[tot + u.uS_i - 1]) if u.typeID in (2, 4) else 0.0
        if u.typeID == 1: c = zb * np.asarray(u.uR, dtype=float)
        elif u.typeID == 2: c = zb * np.asarray(u.uR, dtype=float) + sysv * np.asarray(u.uS, dtype=float)
        else:
            w = mu.w_matrices[u.w_i].toarray().astype(float); uu = np.asarray(mu.u_matrices[u.u_i], dtype=float)
            c = w.dot(zb * uu + (sysv * float(u.uS) if u.typeID == 4 else 0.0))
        cols.append(c)
    return np.array(cols).T


def ref_eval(mu, L, X, a, s, pos):
    """Measurand, its derivatives, adjusted measurand and derivative of one sensor of one series."""
    q = L.Im[s][pos]; name = L.sensors[q]
    sl = slice(L.cNm[s], L.cNm[s + 1])
    ai = np.array([x for x, n in zip(a, mu.idx["parameter_sensor"]) if n == name], dtype=float)
    ci = np.array([x for x, n in zip(mu.sensor_model_constant, mu.idx["sensor_model_constant_sensor"]) if n == name], dtype=float)
    aux = [getattr(mu, nm + str(pos + 1)) for nm in ("across_track_index", "along_track_index", "time")]
    R, J = mu.sensor_model[q](X, ai, ci, *[None if x is None else x[sl] for x in aux])
    B, JB = mu.adjustment_model[q](R)
    return np.asarray(R, dtype=float), J, np.asarray(B, dtype=float), np.asarray(JB, dtype=float)


def ref_f(mu, N, L, start, Nv, ns, z, a):
    """Residual vector."""
    f = [z - N.values.astype(float)]
    for s in range(len(L.Nm)):
        B = [ref_eval(mu, L, ref_X(mu, L, start, Nv, ns, z, s, pos), a, s, pos)[2] for pos in (0, 1)]
        f.append((B[1] - B[0]) / mu.unck[s].uR - N.ks[L.cNm[s]:L.cNm[s + 1]])
    return np.concatenate(f)


def state(p, N, r):
    z = N.values.astype(float) * (1 + 0.05 * r.randn(len(N.values)))
    z = np.where(z == 0, 0.3 * r.randn(len(z)), z)
    a = N.a.astype(float) + 0.1 * r.randn(len(N.a))
    return gen.f32(z), gen.f32(a)


def solver(N, z=None, a=None, S=None):
    G = modules()["GN"].GNAlgo(N)
    if z is not None: G.xyza = np.append(z, a)
    if S is not None: G.S = S
    return G


def close(got, want, tol=2e-4):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape: return False
    sc = max(1e-6, float(np.max(np.abs(want))) if want.size else 1.0)
    return bool(np.all(np.abs(got - want) <= tol * (sc * 0.05 + np.abs(want))))


FORMS = [(1,), (1, 2), (1, 2), (1, 2, 3, 4), (3, 4), (2, 4)]


def cases(rng, n):
    for z in range(n):
        p = gen.payload(rng, forms=FORMS[z % len(FORMS)], consistent=z % 4 != 0, min_n=1 if z % 5 == 0 else 2)
        yield p
