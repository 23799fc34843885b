"""A harmonisation run: every stage gets the input made for it, and the result reports each stage's outcome under its own name.

`HarmonisationEIV.run`, `HarmonisationEIVPC.run` and `HarmonisationOp.run` are decided against the contracts of their stages (reading,
sampling, normalising, preconditioner, Gauss-Newton solver, result files).  The stages' data are abstract: each carries what it was
made from, so the obligations say which data reached which stage.  Every combination of the options is decided; none of the
sizes is fixed.  The real constructor of `HarmonisationResult` and the real `GNAlgo.__init__`, `save` and `open` are executed too."""
import itertools, types
from pyvc import terms as T, ctx
from pyvc.arr import SArr
from pyvc.run import Harness
from pyvc.terms import lift
from contracts import mu_common as M, nc_common as N
from contracts.C26 import handover

TRUSTED = N.TRUSTED + ["numpy.linalg.cholesky is a function of its argument", "the stages' own contracts (C02, C07, C10, C16, C18, C24, C25, C26, C29)"]
ASSUMPTIONS = ["HarmonisationOp.run_mc_trial, runPC and calculate_GNOp_initial (unreachable: they read attributes nothing sets) are not covered"]
EIV, PC, OP = "HarmonisationEIV.HarmonisationEIV.run", "HarmonisationEIVPC.HarmonisationEIVPC.run", "HarmonisationOp.HarmonisationOp.run"
USES = ["Sample2Ind.run", "Transform2NormInd.run", "HarmonisationEIVPC.run", "GNAlgo.run", "GNAlgo.save", "GNAlgo.open", "HarmonisationResult.save", "HarmonisationResult.open_harmonisation_output_file"]
NAMES = ("parameter", "parameter_covariance_matrix", "cost", "cost_dof", "cost_p_value", "values_res", "ks_res")


def vec(tag): return SArr.of((T.sym("len " + tag, "I"),), lambda q: T.app(tag, [lift(q)]))


def mat(tag): return SArr.of((T.sym("na", "I"), T.sym("na", "I")), lambda i, j: T.app(tag, [lift(i), lift(j)]))


def scalar(tag): return T.sym(tag)


def outcome(w):
    """What a stage named w returns: parameters, covariance, cost, degrees of freedom, p value, residuals."""
    return (vec(w + " a"), mat(w + " V"), scalar(w + " cost"), scalar(w + " dof"), scalar(w + " p"), vec(w + " values_res"), vec(w + " ks_res"))


def eq(x, y):
    if x is None or y is None: return lift(x is None and y is None)
    if isinstance(y, SArr): return M.same(x, y) if isinstance(x, SArr) else lift(False)
    return T.eq(lift(x), lift(y))


def harnesses(tree, tier):
    Q = N.program(tree)
    M.complete(Q)
    h = Q.load("harmonisation")
    for nm in ("HarmonisationEIV", "Sample2Ind", "HarmonisationEIVPC"):      # names the package's own __init__ leaves commented out
        if nm not in h.__dict__: setattr(h, nm, object)
    res = Q.load("harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult").HarmonisationResult
    h.HarmonisationResult = res
    GN = Q.load(M.GP + "harmonisation_eiv.GN_algo")
    E = Q.load(M.GP + "harmonisation_eiv.HarmonisationEIV")
    PCm = Q.load(M.GP + "harmonisation_eiv_pc.HarmonisationEIVPC")
    O = Q.load("harmonisation.tools.HarmonisationOp")
    out = []
    for pc_in, gn_in in itertools.product((False, True), repeat=2):
        tag = "%s, %s" % ("preconditioner from file" if pc_in else "preconditioner computed", "solver state from file" if gn_in else "solver state from the data")
        out.append(Harness("run: " + tag, eiv(E, res, pc_in, gn_in), [EIV, "HarmonisationResult.HarmonisationResult.__init__"], USES))
    out.append(Harness("preconditioner run", pc(PCm, res), [PC], ["PCAlgo.runPC"]))
    out.append(Harness("operator", op(O), [OP], ["open_matchup", "MatchUp.setSensorData", "HarmonisationEIV.run", "HarmonisationResult.save"]))
    out.append(Harness("solver state of the data and preconditioner", initial(GN), ["GN_algo.GNAlgo.__init__"]))
    out.append(Harness("solver state saved and reopened", handover(Q, tree), ["GN_algo.GNAlgo.save", "GN_algo.GNAlgo.open"]))
    return out


class Data(object):
    """Match-up data known by what they were made from."""
    __pyvc_mutable__ = True

    def __init__(self, made, a, idx, original): self.made, self.a, self.idx, self._original_idx = made, a, idx, original


def quiet(mod): mod.print = lambda *a, **k: None


def index(tag):
    n = T.sym("n", "I")
    return {"parameter_sensor": ["B", "B", "C"], "sensors": ["A", "B", "C"], "cNm": [0, n], "idx": [0, n, n + n], "Nm": [n], "which": tag}


def like(x, y): return set(x) == set(y) and all(all(T.lift(p) is T.lift(q) if isinstance(q, T.Term) else p == q for p, q in zip(x[k], y[k])) and len(x[k]) == len(y[k]) for k in y)


def eiv(E, Result, pc_in, gn_in):
    def h(c):
        quiet(E)
        combos = itertools.product((None, "pc.nc"), (None, "gn"), (None, "dir"), (0, 1, 2), (False, True), (None, True, False))
        for save_pc, save_gn, save_dir, show, errors, cov in combos:
            one(c, "save_pc=%s save_gn=%s save_directory_GNOp=%s show=%s systematic errors=%s return_covariance=%s: " % (save_pc, save_gn, save_dir, show, errors, cov),
                save_pc, save_gn, save_dir, show, errors, cov)

    def one(c, tag, save_pc, save_gn, save_dir, show, errors, cov):
        log = []
        idx, oidx = index("now"), index("original")
        data = Data("original", vec("a0"), idx, oidx)
        G, P = outcome("GN"), outcome("PC")
        PCfile = outcome("file")
        syst = (vec("systematic"), ["B", "C"]) if errors else (None, None)

        class Sample(object):
            __pyvc_mutable__ = True

            def run(self, d, sf=1, show=False, *a, **k):
                c.oblige(tag + "sample drawn from the data read", lift(d.made == "original"))
                return Data(("sample", d.made), d.a, d.idx, d._original_idx)

        class Norm(object):
            __pyvc_mutable__ = True

            def run(self, d): return Data(("norm", d.made), d.a, d.idx, d._original_idx)

        class PCRun(object):
            __pyvc_mutable__ = True

            def run(self, d, *a, **k):
                c.oblige(tag + "preconditioner solved for the normalised sample", lift(d.made == ("norm", ("sample", "original"))))
                c.oblige(tag + "preconditioner starts at the given parameters", eq(d.a, vec("a0")))
                log.append("pc")
                r = Result_()
                r.parameter_sensors = list(idx["parameter_sensor"])
                for nm, x in zip(NAMES, P): setattr(r, nm, x)
                return r

        class Result_(Result):
            __pyvc_mutable__ = True

            def _get_harm_output_path(self, d): return ("output file of", d)
            def _get_harm_res_paths(self, d): return None          # contract: None when the directory has no residual files

            def open_harmonisation_output_file(self, p):
                c.oblige(tag + "preconditioner read from the given file", lift(p == ("output file of", "in")))
                return PCfile[0], list(idx["parameter_sensor"]), PCfile[1], PCfile[2], PCfile[3], PCfile[4], {}, {}

            def open_harmonisation_residual_files(self, p):
                c.oblige(tag + "residual files read only if there are any", lift(p is not None))
                return PCfile[5], PCfile[6], {}, {}

            def save(self, path, save_residuals=True):
                log.append(("saved", path, self.parameter, self.parameter_covariance_matrix))
                c.oblige(tag + "residuals saved only if there are any", lift(not save_residuals or self.values_res is not None))

        class GNRun(object):
            __pyvc_mutable__ = True

            def __init__(self, d=None, V=None):
                self.HData, self.d, self.V, self.opened, self.ran = d, d, V, None, False
                self.made, self.a0 = d.made, d.a
                self.S = ("cholesky", V) if V is not None else ("identity",)

            def open(self, where):
                c.oblige(tag + "solver state read before the run", lift(not self.ran))
                self.opened, self.S = where, ("file",)
                return 0

            def run(self, tol=1e-6, tolA=1e-8, tolB=1e8, tolU=1e-8, show=False, return_covariance=True):
                used = PCfile if pc_in else P
                if gn_in: c.oblige(tag + "solver starts at the state read", lift(self.opened == "state"))
                else: c.oblige(tag + "solver works on the normalised data", lift(self.made == ("norm", "original") and self.opened is None))
                c.oblige(tag + "solver's parameters are the preconditioner's", eq(self.a0, used[0]))
                ok = isinstance(self.S, tuple) and self.S[0] == "cholesky"
                c.oblige(tag + "solver preconditioned", lift(ok))
                if ok: c.oblige(tag + "solver preconditioned with the Cholesky factor of the preconditioner's covariance", eq(self.S[1], used[1]))
                c.oblige(tag + "covariance computed if asked for", lift(bool(return_covariance) == (cov is not False and save_dir is None)))
                c.oblige(tag + "the solver runs once", lift("gn" not in log))
                self.ran = True
                log.append("gn")
                return G + syst

            def save(self, where):
                c.oblige(tag + "solver state saved at the end", lift(self.ran))
                log.append(("state saved", where))
        E.Sample2Ind, E.Transform2NormInd, E.HarmonisationEIVPC, E.HarmonisationResult, E.GNAlgo = Sample, Norm, PCRun, Result_, GNRun
        E.cholesky = lambda V: ("cholesky", V)
        kw = dict(pc_input="in" if pc_in else None, save_pc=save_pc, gn_input="state" if gn_in else None, save_gn=save_gn, save_directory_GNOp=save_dir, show=show)
        if cov is not None: kw["return_covariance"] = cov
        r = ctx.call(E.HarmonisationEIV().run, data, **kw)
        c.oblige(tag + "solver run", lift("gn" in log))
        c.oblige(tag + "preconditioner computed exactly if none was given", lift(log.count("pc") == (0 if pc_in else 1)))
        used = PCfile if pc_in else P
        saved = [x for x in log if isinstance(x, tuple) and x[0] == "saved"]
        c.oblige(tag + "preconditioner saved exactly if asked for", lift([x[1] for x in saved] == ([save_pc] if save_pc else [])))
        for x in saved:
            c.oblige(tag + "saved preconditioner's parameters", eq(x[2], used[0]))
            c.oblige(tag + "saved preconditioner's covariance", eq(x[3], used[1]))
        states = sorted({x[1] for x in log if isinstance(x, tuple) and x[0] == "state saved"})
        c.oblige(tag + "solver state saved exactly where asked for", lift(states == sorted(x for x in (save_gn, save_dir) if x)))
        for nm, want in zip(NAMES, G): c.oblige(tag + "result reports the solver's " + nm, eq(getattr(r, nm), want))
        c.oblige(tag + "result's parameter labels", lift(list(r.parameter_sensors) == ["B", "B", "C"]))
        c.oblige(tag + "result's residuals laid out as the data were read", lift(like(r.idx, oidx)))
        av = r.additional_variables
        c.oblige(tag + "systematic errors reported exactly if fitted", lift(set(av) == ({"systematic_errors", "systematic_error_sensors"} if errors else set())))
        if errors:
            c.oblige(tag + "fitted systematic errors", eq(av["systematic_errors"]["data"], syst[0]))
            c.oblige(tag + "sensors of the systematic errors", lift(list(av["systematic_error_sensors"]["data"]) == ["B", "C"]))
            c.oblige(tag + "one dimension for both", lift(av["systematic_errors"]["dim"] == av["systematic_error_sensors"]["dim"] and av["systematic_errors"]["dim"] not in ("n", "l_name")))
            c.oblige(tag + "stored as numbers and as text", lift(av["systematic_errors"]["dtype"] in ("f4", "f8") and av["systematic_error_sensors"]["dtype"] == "S1"))
    return h


def pc(mod, Result):
    def h(c):
        quiet(mod)
        P = outcome("PC")
        idx, oidx = index("now"), index("original")
        data = Data("sample", vec("a0"), idx, oidx)
        asked = []

        class Algo(object):
            __pyvc_mutable__ = True

            def __init__(self, d): c.oblige("preconditioner of the data given", lift(d.made == "sample"))

            def runPC(self, tol=1e-6):
                asked.append(tol)
                return P
        mod.PCAlgo = Algo
        mod.HarmonisationResult = Result
        r = ctx.call(mod.HarmonisationEIVPC().run, data)
        c.oblige("solved once", lift(len(asked) == 1))
        for nm, want in zip(NAMES, P): c.oblige("result reports its " + nm, eq(getattr(r, nm), want))
        c.oblige("parameter labels", lift(list(r.parameter_sensors) == ["B", "B", "C"]))
        c.oblige("layout of the data read", lift(like(r.idx, oidx)))
    return h


CFG = {"software": "EV", "version": "1.0", "tag": "abc", "job_id": "07", "matchup_dataset": "SIM"}
ATTR = {"software": "software", "version": "software_version", "tag": "software_tag", "job_id": "job_id"}


def op(mod):
    def h(c):
        quiet(mod)
        keys = list(CFG)
        cfgs = [None, {}] + [{k: CFG[k] for k in keys[:n]} for n in range(1, 6)] + [{k: CFG[k] for k in keys if k != "tag"}]
        for cfg in cfgs:
            for pc_in, save_pc, gn_in, save_gn, cov, show in itertools.product((None, "pc"), (None, "spc"), (None, "gn"), (None, "sgn"), (None, True, False), (0, 2)):
                one(c, "software_cfg=%s pc_input=%s save_pc=%s gn_input=%s save_gn=%s return_covariance=%s: " % (None if cfg is None else sorted(cfg), pc_in, save_pc, gn_in, save_gn, cov), cfg, pc_in, save_pc, gn_in, save_gn, cov, show)

    def one(c, tag, cfg, pc_in, save_pc, gn_in, save_gn, cov, show):
        log = []
        G = outcome("GN")
        sensor_data = {"A": {}, "B": {}}

        class Opened(Data):
            def setSensorData(self, s):
                c.oblige(tag + "sensor data given", lift(s is sensor_data))
                self.idx = dict(self.idx, parameter_sensor=["B", "B", "C"])
                self.made = "original"

        def open_matchup(path, *a, **k):
            c.oblige(tag + "match-up data of the directory given", lift(path == "data/set"))
            c.oblige(tag + "uncertainties read", lift(k.get("open_uncertainty", True) is not False))
            i = index("now")
            del i["parameter_sensor"]
            return Opened("no sensor data", None, i, index("original"))

        class Result(object):
            __pyvc_mutable__ = True

            def __init__(self): self.additional_attributes = {}

            def save(self, path, save_residuals=True):
                log.append(("saved", path, save_residuals, dict(self.additional_attributes), [getattr(self, nm) for nm in NAMES]))

        class Run(object):
            __pyvc_mutable__ = True

            def run(self, d, pc_input=None, save_pc=None, gn_input=None, save_gn=None, save_directory_GNOp=None, show=1, return_covariance=True):
                c.oblige(tag + "run on the data with their sensor data", lift(d.made == "original"))
                log.append(("run", pc_input, save_pc, gn_input, save_gn, save_directory_GNOp, bool(return_covariance)))
                r = Result()
                for nm, x in zip(NAMES, G): setattr(r, nm, x)
                return r
        mod.open_matchup, mod.HarmonisationEIV = open_matchup, Run
        kw = dict(pc_input=pc_in, save_pc=save_pc, gn_input=gn_in, save_gn=save_gn, show=show)
        if cfg is not None: kw["software_cfg"] = dict(cfg)
        if cov is not None: kw["return_covariance"] = cov
        ctx.call(mod.HarmonisationOp().run, "data/set", sensor_data, "out/dir", **kw)
        runs = [x[1:] for x in log if x[0] == "run"]
        c.oblige(tag + "one run with the options given", lift(runs == [(pc_in, save_pc, gn_in, save_gn, None, cov is not False)]))
        saved = [x for x in log if x[0] == "saved"]
        c.oblige(tag + "one result saved, after the run", lift(len(saved) == 1 and log[-1][0] == "saved"))
        _, path, res, attrs, vals = saved[0]
        d, f = path.rsplit("/", 1)
        c.oblige(tag + "saved in the output directory as a harmonisation output file", lift(d == "out/dir" and f.startswith("harm") and f.endswith(".nc") and "res" not in f))
        for k in (cfg or {}): c.oblige(tag + "file name carries its " + k, lift(cfg[k] in f[4:-3].split("_")))
        c.oblige(tag + "residuals saved", lift(bool(res)))
        for nm, x, y in zip(NAMES, vals, G): c.oblige(tag + "saved " + nm, eq(x, y))
        for k in (cfg or {}):
            if k in ATTR: c.oblige(tag + "attribute " + ATTR[k], lift(attrs.get(ATTR[k]) == cfg[k]))
            else: c.oblige(tag + "attribute matchup_dataset", lift(str(attrs.get("matchup_dataset")).startswith(cfg[k])))
        c.oblige(tag + "no attribute without its setting", lift(all((ATTR.get(k, k) in attrs) == (k in (cfg or {})) for k in CFG)))
    return h


def initial(mod):
    def h(c):
        n, na = T.sym("n", "I"), T.sym("na", "I")
        for x in (n, na): c.assume(T.le(T.const(1), x))
        vals, a, V = N.sym_array("values", (n,)), N.sym_array("a", (na,)), N.sym_array("V", (na, na))
        mod.cholesky = lambda X: SArr.of(X.shape, lambda i, j: T.app("chol", [lift(i), lift(j)])) if eq_now(X, V) else SArr.of(X.shape, lambda i, j: T.app("other", [lift(i), lift(j)]))
        eq_now = lambda X, Y: X is Y or M.same(X, Y) is T.true
        for given in (True, False):
            tag = "preconditioner covariance given: " if given else "none given: "
            d = types.SimpleNamespace(values=vals, a=a)
            G = ctx.call(mod.GNAlgo, d, V) if given else ctx.call(mod.GNAlgo, d)
            c.oblige(tag + "the solver's data", lift(G.HData is d))
            c.oblige(tag + "one state entry per variable and parameter", T.eq(lift(G.xyza.shape[0]), n + na))
            i, hi = M.generic(c, "i", n)
            c.oblige(tag + "state starts with the data", T.eq(G.xyza.at(i), vals.at(i)), hi)
            i, hi = M.generic(c, "i", na)
            c.oblige(tag + "then the parameters", T.eq(G.xyza.at(n + i), a.at(i)), hi)
            j, hj = M.generic(c, "j", na)
            if given: c.oblige(tag + "Cholesky factor of it", T.eq(G.S.at(i, j), T.app("chol", [i, j])), hi + hj if isinstance(hi, list) else T.and_(hi, hj))
            else: c.oblige(tag + "identity", T.eq(G.S.at(i, j), T.ite(T.eq(i, j), T.real(1), T.real(0))), hi + hj if isinstance(hi, list) else T.and_(hi, hj))
        G = ctx.call(mod.GNAlgo)
        c.oblige("without data: no state", lift(G.HData is None and G.xyza is None and G.S is None))
    return h
