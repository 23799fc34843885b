import copy, importlib, itertools, os, shutil, sys, tempfile
import numpy as np
from runtime import gen, gn_rt, boot
RULE = "one case = a harmonisation run with one combination of options over recording stages (the real run functions, result class and files), or a solver state saved and reopened over the data as read; data handed to each stage, files written and results reported compared"
NAMES = ("parameter", "parameter_covariance_matrix", "cost", "cost_dof", "cost_p_value", "values_res", "ks_res")


def cases(rng, tier):
    combos = list(itertools.product((False, True), (False, True), (False, True), (False, True), (False, True), (0, 1, 2), (False, True), (None, True, False)))
    rng.shuffle(combos)
    for z in range(160 if tier == "quick" else 1200):
        p = gen.payload(rng, forms=gn_rt.FORMS[z % len(gn_rt.FORMS)], max_series=2, max_n=4, max_m=2, min_n=2)
        p["kind"] = ("run", "run", "resume", "operator")[z % 4]
        p["opt_run"] = list(combos[z % len(combos)])
        p["cfg"] = [None, 0, 1, 2, 3, 4, 5][z % 7]
        yield p


_m = {}


def mods():
    if _m: return _m
    gn_rt.modules(); gn_rt.pc_module()
    import harmonisation as H
    for nm in ("Sample2Ind", "HarmonisationEIVPC", "HarmonisationEIV", "HarmonisationResult"):
        if not hasattr(H, nm): setattr(H, nm, object)
    GP = gn_rt._state["GP"]
    _m["R"] = importlib.import_module("harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult").HarmonisationResult
    _m["E"] = importlib.import_module(GP + "harmonisation_eiv.HarmonisationEIV")
    _m["P"] = importlib.import_module(GP + "harmonisation_eiv_pc.HarmonisationEIVPC")
    _m["O"] = importlib.import_module("harmonisation.tools.HarmonisationOp")
    for x in ("E", "P", "O"): _m[x].print = lambda *a, **k: None
    return _m


class Data(object):
    def __init__(self, made, a, idx, original): self.made, self.a, self.idx, self._original_idx = made, a, idx, original


def outcome(r, na, L):
    A = r.randn(na, na)
    return [r.randn(na), A.dot(A.T) + np.eye(na), float(r.rand()), int(r.randint(5, 50)), float(r.rand()), gen.f32(r.randn(L.idx[-1])), gen.f32(r.randn(L.cNm[-1]))]


def eq(x, y): return x is None and y is None if x is None or y is None else np.shape(x) == np.shape(y) and np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=1e-6, atol=1e-9)


def check(p):
    out = []
    m = mods()
    mu, L, F = gen.matchup(p)
    if p["kind"] == "resume": return resume(p, mu, L, out)
    r = gen.rs(p, "out")
    d = tempfile.mkdtemp(dir=boot.TREE)
    try: return (run if p["kind"] == "run" else operator)(p, m, mu, L, r, d, out)
    finally: shutil.rmtree(d, ignore_errors=True)


def resume(p, mu, L, out):
    if not len(mu.a): return out
    GN = gn_rt.modules()["GN"]
    r = gen.rs(p, "z")
    Norm, start, Nv, ns = gn_rt.normalised(mu, L)
    z, a = gn_rt.state(p, Norm, r)
    na = len(a)
    A = r.randn(na, na); S = np.linalg.cholesky(A.dot(A.T) + np.eye(na))
    G = gn_rt.solver(Norm, z, a, S)
    want = np.asarray(G.calc_f(G.xyza, G.HData), dtype=float)
    x = gen.f32(r.randn(len(z) + na))
    jx = np.asarray(G.get_JPx(x), dtype=float)
    d = tempfile.mkdtemp(dir=boot.TREE)
    try:
        G.save(os.path.join(d, "state"))
        H = GN.GNAlgo(gen.matchup(p)[0])          # over the data as read
        H.open(os.path.join(d, "state"))
    finally: shutil.rmtree(d, ignore_errors=True)
    for nm, u, v in (("state", H.xyza, G.xyza), ("data", H.HData.values, G.HData.values), ("adjustment factors", H.HData.ks, G.HData.ks), ("preconditioner", H.S, G.S)):
        if np.shape(u) != np.shape(v) or not np.allclose(np.asarray(u, dtype=float), np.asarray(v, dtype=float), rtol=1e-5, atol=1e-5): out.append(("C30:reopened " + nm, "%r, saved %r" % (u, v)))
    if not out:
        got = np.asarray(H.calc_f(H.xyza, H.HData), dtype=float)
        tol = 1e-3 * (1 + np.max(np.abs(want)))
        if got.shape != want.shape or np.max(np.abs(got - want)) > tol: out.append(("C30:resumed residuals", "%r, before saving %r" % (got, want)))
        got = np.asarray(H.get_JPx(x), dtype=float)
        if got.shape != jx.shape or np.max(np.abs(got - jx)) > 1e-3 * (1 + np.max(np.abs(jx))): out.append(("C30:resumed Jacobian product", "%r, before saving %r" % (got, jx)))
    return out


def run(p, m, mu, L, r, d, out):
    E, Result = m["E"], m["R"]
    pc_in, save_pc, gn_in, save_gn, save_dir, show, errors, cov = p["opt_run"]
    bad = lambda key, what: out.append(("C30:" + key, "%s; options pc_input=%s save_pc=%s gn_input=%s save_gn=%s save_directory_GNOp=%s show=%s systematic=%s return_covariance=%s" % ((what,) + tuple(p["opt_run"]))))
    idx = copy.deepcopy(mu.idx); oidx = copy.deepcopy(mu.idx)
    names = list(idx["parameter_sensor"]) or [L.sensors[0]]
    idx["parameter_sensor"] = names
    na = len(names)
    a0 = r.randn(na)
    G, P, old = outcome(r, na, L), outcome(r, na, L)[:2] + [None] * 5, outcome(r, na, L)
    used = (old if pc_in else P)
    syst = (r.randn(2), [L.sensors[0], L.sensors[-1]]) if errors else (None, None)
    log = []
    if pc_in:
        q = Result()
        q.parameter_sensors = names
        for nm, x in zip(NAMES, old): setattr(q, nm, x)
        os.mkdir(os.path.join(d, "in"))
        q.save(os.path.join(d, "in", "harm_pc.nc"), save_residuals=False)

    class Sample(object):
        def run(self, x, sf=1, show=False, *a, **k):
            if x.made != "original": bad("sample", "sample drawn from %r" % (x.made,))
            return Data(("sample", x.made), x.a, x.idx, x._original_idx)

    class Norm(object):
        def run(self, x): return Data(("norm", x.made), x.a, x.idx, x._original_idx)

    class PCAlgo(object):
        def __init__(self, x):
            if x.made != ("norm", ("sample", "original")): bad("preconditioner data", "preconditioner solved for %r" % (x.made,))
            if not eq(x.a, a0): bad("preconditioner start", "%r, given %r" % (x.a, a0))

        def runPC(self, tol=1e-6):
            log.append("pc")
            return tuple(P)

    class GNRun(object):
        def __init__(self, x=None, V=None):
            self.HData, self.made, self.a0, self.opened, self.ran = x, x.made, x.a, None, False
            self.S = np.linalg.cholesky(V) if V is not None else np.eye(na)

        def open(self, where): self.opened, self.S = where, np.zeros((na, na)); return 0

        def run(self, tol=1e-6, tolA=1e-8, tolB=1e8, tolU=1e-8, show=False, return_covariance=True):
            if gn_in:
                if self.opened != "state": bad("solver state", "solver starts at %r" % (self.opened,))
            elif self.made != ("norm", "original") or self.opened is not None: bad("solver data", "solver works on %r" % (self.made,))
            if not eq(self.a0, used[0]): bad("solver start", "solver starts at %r, preconditioner found %r" % (self.a0, used[0]))
            if not eq(self.S, np.linalg.cholesky(used[1])): bad("solver preconditioner", "%r, preconditioner's covariance %r" % (self.S, used[1]))
            if bool(return_covariance) != (cov is not False and not save_dir): bad("covariance", "computed: %r" % return_covariance)
            self.ran = True
            log.append("gn")
            return tuple(G) + syst

        def save(self, where): log.append(("state", where, self.ran))
    E.Sample2Ind, E.Transform2NormInd, E.HarmonisationEIVPC, E.HarmonisationResult, E.GNAlgo = Sample, Norm, m["P"].HarmonisationEIVPC, Result, GNRun
    m["P"].PCAlgo, m["P"].HarmonisationResult = PCAlgo, Result
    pcf = os.path.join(d, "pc_saved", "harm_pc.nc"); os.mkdir(os.path.dirname(pcf))
    kw = dict(pc_input=os.path.join(d, "in") if pc_in else None, save_pc=pcf if save_pc else None, gn_input="state" if gn_in else None, save_gn="gn" if save_gn else None, save_directory_GNOp="dir" if save_dir else None, show=show)
    if cov is not None: kw["return_covariance"] = cov
    R = E.HarmonisationEIV().run(Data("original", a0, idx, oidx), **kw)
    if log.count("pc") != (0 if pc_in else 1) or log.count("gn") != 1: bad("stages", "%r" % log)
    st = sorted(x[1] for x in log if isinstance(x, tuple)); want = sorted(set(x for x, y in (("gn", save_gn), ("dir", save_dir)) if y))
    if sorted(set(st)) != want or not all(x[2] for x in log if isinstance(x, tuple)): bad("state saved", "%r" % log)
    if os.path.exists(pcf) != save_pc: bad("preconditioner saved", "written: %r" % os.path.exists(pcf))
    elif save_pc:
        q = Result(os.path.dirname(pcf), open_residuals=False)
        if not (eq(q.parameter, used[0]) and eq(q.parameter_covariance_matrix, used[1])): bad("preconditioner saved", "%r, used %r" % (q.parameter, used[0]))
    for nm, x in zip(NAMES, G):
        if not eq(getattr(R, nm), x): bad("result " + nm, "%r, solver found %r" % (getattr(R, nm), x))
    if list(R.parameter_sensors) != names: bad("labels", "%r" % R.parameter_sensors)
    for k in ("Im", "Nm", "cNm", "n_sensor", "n_mu", "n_cov", "N_var", "idx", "sensors"):
        if list(R.idx[k]) != list(oidx[k]): bad("layout", "%s: %r" % (k, R.idx[k]))
    if errors:
        # as the result files report them
        R.additional_attributes = {}
        f = os.path.join(d, "out"); os.mkdir(f)
        R.save(os.path.join(f, "harm_x.nc"))
        q = Result(f)
        v = q.additional_variables
        if np.shape(v["systematic_errors"]) != (2,) or not np.allclose(np.asarray(v["systematic_errors"], dtype=float), syst[0], rtol=1e-5): bad("systematic errors", "%r, fitted %r" % (v["systematic_errors"], syst[0]))
    elif R.additional_variables: bad("systematic errors", "%r reported, none fitted" % R.additional_variables)
    return out


CFG = {"software": "EV", "version": "1.0", "tag": "abc", "job_id": "07", "matchup_dataset": "SIM"}
ATTR = {"software": "software", "version": "software_version", "tag": "software_tag", "job_id": "job_id", "matchup_dataset": "matchup_dataset"}


def operator(p, m, mu, L, r, d, out):
    O, Result = m["O"], m["R"]
    bad = lambda key, what: out.append(("C30:" + key, what))
    pc_in, save_pc, gn_in, save_gn, _, show, _, cov = p["opt_run"]
    names = list(mu.idx["parameter_sensor"]) or [L.sensors[0]]
    G = outcome(r, len(names), L)
    sd = {"given": 1}
    log = []

    class Opened(Data):
        def setSensorData(self, s):
            self.made = "original" if s is sd else "other sensor data"
            self.idx["parameter_sensor"] = names

    def open_matchup(path, *a, **k):
        if path != "set": bad("data", "opened %r" % path)
        return Opened("no sensor data", None, copy.deepcopy(mu.idx), copy.deepcopy(mu.idx))

    class Run(object):
        def run(self, x, pc_input=None, save_pc=None, gn_input=None, save_gn=None, save_directory_GNOp=None, show=1, return_covariance=True):
            if x.made != "original": bad("data", "run on %r" % x.made)
            log.append((pc_input, save_pc, gn_input, save_gn, save_directory_GNOp, bool(return_covariance)))
            R = Result()
            R.idx, R.parameter_sensors = copy.deepcopy(mu.idx), names
            for nm, v in zip(NAMES, G): setattr(R, nm, v)
            return R
    O.open_matchup, O.HarmonisationEIV = open_matchup, Run
    cfg = None if p["cfg"] is None else {k: CFG[k] for k in list(CFG)[:p["cfg"]]}
    o = os.path.join(d, "out"); os.mkdir(o)
    kw = dict(pc_input="a" if pc_in else None, save_pc="b" if save_pc else None, gn_input="c" if gn_in else None, save_gn="e" if save_gn else None, software_cfg=cfg, show=show)
    if cov is not None: kw["return_covariance"] = cov
    O.HarmonisationOp().run("set", sd, o, **kw)
    want = (kw["pc_input"], kw["save_pc"], kw["gn_input"], kw["save_gn"], None, cov is not False)
    if log != [want]: bad("options", "run got %r, given %r" % (log, want))
    R = Result(o)
    for nm, x in zip(NAMES, G):
        u, v = (np.sort(np.asarray(y, dtype=float), axis=None) if nm in ("values_res", "ks_res") else np.asarray(y, dtype=float) for y in (getattr(R, nm), x))   # residual files come in any order
        if u.shape != v.shape or not np.allclose(u, v, rtol=1e-5, atol=1e-6): bad("saved " + nm, "%r, found %r" % (getattr(R, nm), x))
    f = [x for x in os.listdir(o) if "res" not in x]
    for k in cfg or {}:
        if cfg[k] not in f[0][:-3].split("_"): bad("file name", "%r without %s %r" % (f[0], k, cfg[k]))
        if not str(R.additional_attributes.get(ATTR[k])).startswith(cfg[k]): bad("attributes", "%s is %r, given %r" % (ATTR[k], R.additional_attributes.get(ATTR[k]), cfg[k]))
    for k in ATTR:
        if k not in (cfg or {}) and ATTR[k] in R.additional_attributes: bad("attributes", "%s without its setting" % ATTR[k])
    return out
