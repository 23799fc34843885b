import os, shutil, tempfile
import numpy as np
from runtime import gen, boot
RULE = "one case = a random result (sensors, parameters, covariance, residuals of a random match-up layout, systematic errors) saved into a scratch directory and reopened"


def cases(rng, tier):
    for z in range(120 if tier == "quick" else 1500):
        p = gen.payload(rng, forms=(1, 2), max_series=5)
        p["npars"] = rng.randint(1, 12); p["nsys"] = rng.randint(0, 5); p["vres"] = rng.random() < 0.8
        yield p


def eq(a, b, tol=0):
    if np.ma.is_masked(a): return False
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1e-12 + np.abs(b))))


def names(x):
    from netCDF4 import chartostring
    x = np.asarray(x)
    return [str(s.decode() if isinstance(s, bytes) else s).strip() for s in (chartostring(x) if x.ndim == 2 else x)]


def check(p):
    boot.inject()
    from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult import HarmonisationResult
    L = gen.Layout(p)
    r = gen.rs(p, "result")
    R = HarmonisationResult()
    n = p["npars"]
    par = r.randn(n) * 10.0 ** r.randint(-6, 6, n)
    ps = [L.sensors[r.randint(len(L.sensors))] for _ in range(n)]
    A = r.randn(n, n); cov = A.dot(A.T) * 1e-5
    vres = r.randn(L.idx[-1]) if p["vres"] else None
    kres = r.randn(L.cNm[-1])
    R.parameter, R.parameter_sensors, R.parameter_covariance_matrix = par.copy(), list(ps), cov.copy()
    R.cost, R.cost_dof, R.cost_p_value = 12.25, 7, 0.125
    R.values_res, R.ks_res, R.idx = (None if vres is None else vres.copy()), kres.copy(), L.as_idx()
    R.additional_attributes = {"software": "FO", "software_version": "1_1", "job_id": "7"}
    sysv, syss = r.randn(p["nsys"]), [L.sensors[r.randint(len(L.sensors))] for _ in range(p["nsys"])]
    R.additional_variables = {}
    if p["nsys"]:
        R.additional_variables["systematic_errors"] = {"data": sysv.copy(), "dim": "s", "dtype": "f4", "Description": "Fitted systematic errors"}
        R.additional_variables["systematic_error_sensors"] = {"data": list(syss), "dim": "s", "dtype": "S1", "Description": "Sensors"}
    d = tempfile.mkdtemp(dir=boot.TREE)
    out = []
    if p["seed"] % 8 == 0:          # a solution without statistics and residuals (the preconditioner's)
        R.cost = R.cost_dof = R.cost_p_value = R.values_res = R.ks_res = None
        try:
            R.save(os.path.join(d, "harm_pc.nc"), save_residuals=False)
            X = HarmonisationResult(d, open_residuals=False)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if not eq(X.parameter, par) or names(X.parameter_sensors) != ps or not eq(X.parameter_covariance_matrix, cov): out.append(("C18:solution without statistics", "%r, expected %r" % (X.parameter, par)))
        if not (X.cost is None and X.cost_dof is None and X.cost_p_value is None): out.append(("C18:statistics", "%r, none saved" % ((X.cost, X.cost_dof, X.cost_p_value),)))
        return out
    try:
        R.save(os.path.join(d, "harm_FO_1_1_set.nc"))
        if p["seed"] % 2: R.save(os.path.join(d, "harm_FO_1_1_set.nc"))     # saving again changes nothing
        O = HarmonisationResult(d)
        Q = HarmonisationResult(d, open_residuals=False)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for X, w in ((O, ""), (Q, " without residuals")):
        if not eq(X.parameter, par): out.append(("C18:parameter" + w, "%r, expected %r" % (X.parameter, par)))
        if names(X.parameter_sensors) != ps: out.append(("C18:parameter sensors" + w, "%r, expected %r" % (X.parameter_sensors, ps)))
        if not eq(X.parameter_covariance_matrix, cov): out.append(("C18:covariance" + w, "%r" % X.parameter_covariance_matrix))
        if (X.cost, X.cost_dof, X.cost_p_value) != (12.25, 7, 0.125): out.append(("C18:cost" + w, "%r" % ((X.cost, X.cost_dof, X.cost_p_value),)))
        if set(X.additional_variables) != set(R.additional_variables): out.append(("C18:additional variables" + w, "%r" % list(X.additional_variables)))
        elif p["nsys"]:
            if not eq(X.additional_variables["systematic_errors"], sysv, 1e-6): out.append(("C18:systematic errors" + w, "%r, expected %r" % (X.additional_variables["systematic_errors"], sysv)))
            if names(X.additional_variables["systematic_error_sensors"]) != syss: out.append(("C18:systematic error sensors" + w, "%r" % names(X.additional_variables["systematic_error_sensors"])))
        for a in R.additional_attributes:
            if X.additional_attributes.get(a) != R.additional_attributes[a]: out.append(("C18:attributes" + w, "%r" % X.additional_attributes))
    I = O.idx
    if len(I["Nm"]) != len(L.Nm) or list(I["cNm"]) != [0] + list(np.cumsum(I["Nm"])) or len(O.ks_res) != L.cNm[-1]: return out + [("C18:series", "%r" % I)]
    left = list(range(len(L.Nm)))
    m = {}
    for s in range(len(I["Nm"])):
        pair = [I["sensors"][q] for q in I["Im"][s]]
        hit = [t for t in left if [L.sensors[q] for q in L.Im[t]] == pair and eq(O.ks_res[I["cNm"][s]:I["cNm"][s + 1]], kres[L.cNm[t]:L.cNm[t + 1]])]
        if not hit: return out + [("C18:adjustment factor residuals", "no saved series %r has residuals %r" % (pair, O.ks_res[I["cNm"][s]:I["cNm"][s + 1]]))]
        m[s] = hit[0]; left.remove(hit[0])
    if vres is None:
        if O.values_res is not None: out.append(("C18:state residuals", "%r" % O.values_res))
        return out
    if O.values_res is None: return out + [("C18:state residuals", "not restored")]
    seen = set()
    for b, (q, t, v) in enumerate(zip(I["n_sensor"], I["n_mu"], I["n_cov"])):
        s = m[t - 1]; pos = [L.sensors[x] for x in L.Im[s]].index(I["sensors"][q])
        b0 = L.blocks.index((v - 1, s, pos)); seen.add(b0)
        got = O.values_res[I["idx"][b]:I["idx"][b + 1]]
        if not eq(got, vres[L.idx[b0]:L.idx[b0 + 1]]): out.append(("C18:state residuals", "series %d %s variable %d: %r, expected %r" % (s + 1, I["sensors"][q], v, got, vres[L.idx[b0]:L.idx[b0 + 1]])))
    if len(seen) != len(L.blocks) or len(O.values_res) != I["idx"][-1]: out.append(("C18:state residuals", "%d of %d blocks restored" % (len(seen), len(L.blocks))))
    return out
