import sys
sys.path.insert(0, "/verif/tools_dev")
from mkseed import mkseed
C = "harmonisation_eiv/harmonisation/core/matchup/"
MU, RD, WR = C + "matchupIO/MatchUp.py", C + "matchupIO/MatchUpReader.py", C + "matchupIO/MatchUpWriter.py"
T2 = C + "matchupProcessing/transform2normind/Transform2NormInd.py"
EIV = C + "matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/"
GN, GNX = EIV + "GN_algo.py", EIV + "cython_lib_GN_algo.pyx"
MM = C + "matchupToolbox/utils/matchup_maths.py"
SIM = C + "matchupProcessing/simulate_matchup/SimulateMatchUp.py"
S = '''
def payloads(n, **k):
    r = random.Random(5)
    for _ in range(n): yield gen.payload(r, **k)
'''
which = set(sys.argv[1:])
def seed(id, prop, edits, demo, needs, breaks):
    if which and id not in which: return
    mkseed(id, prop, edits, S + demo, needs, breaks, lib=True)

seed("C06-a", "C06", [(MU, """        if matchup_number is not None:
            istart = self.idx['cNm'][matchup_number-1]
            iend = self.idx['cNm'][matchup_number]
        additional""", """        if matchup_number is not None:
            istart = self.idx['cNm'][matchup_number-1]
            iend = istart + self.idx['N_var'][matchup_number-1]
        additional""")], '''
p = {"series": [[0, 1, 3], [1, 2, 5]], "m": [1, 2, 2], "npar": [0, 1, 1], "forms": [[[1], [1, 1]], [[1, 1], [1, 1]]], "names": ["X", "m02", "n19"], "seed": 3, "opt": [True] * 8}
mu, L, F = gen.matchup(p)
n = mu.idx["additional_values_name"][0]
assert len(mu.getAdditionalData(n, 2)) == 5, mu.getAdditionalData(n, 2)
''', "two or more series of different lengths", "the additional data of series 2 are cut to the length of the second data block (a block of series 1)")
seed("C06-b", "C06", [(MU, """        if sensor_name == self.idx['sensors'][self.idx['Im'][n_mu-1][0]]:
            if self.along_track_index1 is not None:
                return self.along_track_index1[istart:iend]
            else:
                return None
        elif""", """        if sensor_name == self.idx['sensors'][self.idx['Im'][n_mu-1][0]]:
            if self.along_track_index1 is not None:
                return self.along_track_index1[istart:iend]
            elif self.along_track_index2 is not None:
                return self.along_track_index2[istart:iend]
            else:
                return None
        elif""")], '''
p = {"series": [[0, 1, 3]], "m": [1, 2], "npar": [0, 1], "forms": [[[1], [1, 1]]], "names": ["X", "m02"], "seed": 3, "opt": [False, False, False, True]}
mu, L, F = gen.matchup(p)
assert mu.along_track_index1 is None and mu.along_track_index2 is not None
assert mu.getSensorAlongTrackIndex(1, "X") is None
assert np.array_equal(mu.getSensorAlongTrackIndex(1, "m02"), mu.along_track_index2)
''', "files with the second sensor's along-track index only", "asking for the first sensor's along-track index answers with the second sensor's")
seed("C07-a", "C07", [(T2, "        n_uS = max([0]+[unc_i.uS_i for unc_i in MatchUpData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])\n\n        for i", "        n_uS = len(set([unc_i.uS_i for unc_i in MatchUpData.unc if unc_i.typeID == 2]))\n\n        for i")], '''
T = gn_rt.modules()["T"]
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 2], "forms": [[[1], [2, 4]]], "names": ["X", "m02"], "seed": 3, "opt": [True] * 4}
mu, L, F = gen.matchup(p)
N, start, Nv, ns = gn_rt.normalised(mu, L)
N.values = N.values + 1
U = T().reverse(N)
for b, (v, s, pos) in enumerate(L.blocks):
    X = gn_rt.ref_X(mu, L, start, Nv, ns, N.values.astype(float), s, pos)[:, v]
    assert np.allclose(U.values[L.idx[b]:L.idx[b + 1]], X, rtol=1e-4), b
''', "a weighted+systematic variable with a systematic error number of its own besides a random+systematic one", "the inverse transform looks up the systematic errors at the wrong place")
seed("C07-b", "C07", [(T2, "MatchUpNormInd.a = MatchUpData.a[:]", "MatchUpNormInd.a = MatchUpData.a"), (T2, "MatchUpNormInd.ks = zeros(independent_idx['cNm'][-1])", "MatchUpNormInd.ks = MatchUpData.ks.astype(float, copy=False)")], '''
T = gn_rt.modules()["T"]
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 2], "forms": [[[1], [1, 2]]], "names": ["X", "m02"], "seed": 3, "opt": [True] * 4}
mu, L, F = gen.matchup(p)
mu.ks = mu.ks.astype(np.float64)
k = mu.ks.copy()
T().run(mu)
assert np.array_equal(mu.ks, k), "the input's adjustment factors were modified"
''', "adjustment factors held in double precision (as the reader holds them)", "transforming scales the input object's own adjustment factors")
seed("C08-a", "C08", [(GNX, "            isys = idxs[-1] - n_uS - 1 + block_unc.uS_i\n            w = w_matrices", "            isys = idxs[-1] - n_uS - 1 + unc[0].uS_i if hasattr(unc[0], 'uS_i') else idxs[-1] - n_uS - 1 + block_unc.uS_i\n            w = w_matrices")], '''
m = gn_rt.modules()
import cython_lib_GN_algo as X
p = {"series": [[0, 1, 4]], "m": [2, 2], "npar": [2, 2], "forms": [[[2, 4], [4, 2]]], "names": ["n19", "m02"], "seed": 3, "opt": [True] * 4}
mu, L, F = gen.matchup(p)
N, start, Nv, ns = gn_rt.normalised(mu, L)
z = N.values + np.arange(len(N.values))
z = z.astype(np.float32)
G = gn_rt.solver(N, z, N.a)
i = N.idx
for q in (0, 1):
    A = G.unconvert_Xs(G.xyza, N.unc, i, N._original_idx, q, 1)
    I = lambda x: np.asarray(x, dtype=np.int32)
    B = X.unconvert_Xs(G.xyza, I(i["n_sensor"]), I(i["idx"]), I(N._original_idx["idx"]), I(i["n_cov"]), I(i["n_mu"]), I(i["N_var"]), N.unc, [w.astype(np.float32) for w in N.w_matrices], [np.asarray(u, dtype=np.float32) for u in N.u_matrices], q, 1, 2)
    assert np.allclose(A, B, rtol=1e-3), (q, A, B)
''', "a weighted+systematic variable whose systematic error is not the first block's", "the compiled routine adds another variable's systematic error")
seed("C09-a", "C09", [(GN, "            MatchUpEstimate.ks[istart:iend] /= MatchUpEstimate.unck[i].uR", "            MatchUpEstimate.ks[istart:iend] /= MatchUpEstimate.unck[i if len(MatchUpEstimate.unck[i].uR) > 1 else 0].uR")], '''
gn_rt.modules()
p = {"series": [[0, 1, 4], [0, 2, 1]], "m": [1, 2, 2], "npar": [0, 2, 2], "forms": [[[1], [1, 1]], [[1], [1, 1]]], "names": ["X", "m02", "n19"], "seed": 3, "opt": [True] * 8}
p["series"][0][2] = 1; p["series"][1][2] = 1
mu, L, F = gen.matchup(p)
N, start, Nv, ns = gn_rt.normalised(mu, L)
G = gn_rt.solver(N)
f = G.calc_f(G.xyza, N)
ref = gn_rt.ref_f(mu, N, L, start, Nv, ns, G.xyza[:len(N.values)].astype(float), N.a)
assert gn_rt.close(f, ref), (f, ref)
''', "a series of a single match-up after the first series", "that series' residual is divided by the first series' adjustment factor uncertainty")
seed("C09-b", "C09", [(GN, "        MatchUpEstimate_NormInd.values = deepcopy(xyza[:N_var])", "        MatchUpEstimate_NormInd.values = xyza[:N_var]"), (GN, "        MatchUpEstimate.ks = evaluate_K(MatchUpEstimate)\n", "        MatchUpEstimate.ks = evaluate_K(MatchUpEstimate)\n        MatchUpEstimate_NormInd.values.clip(-1e4, 1e4, out=MatchUpEstimate_NormInd.values)\n")], '''
gn_rt.modules()
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 2], "forms": [[[1], [1, 1]]], "names": ["X", "m02"], "seed": 3, "opt": [True] * 8}
mu, L, F = gen.matchup(p)
N, start, Nv, ns = gn_rt.normalised(mu, L)
z = N.values.astype(np.float64); z[0] = 2e4
G = gn_rt.solver(N, z, N.a)
x = G.xyza.copy()
G.calc_f(G.xyza, N)
assert np.array_equal(x, G.xyza), "computing the residuals changed the state"
''', "a state value beyond 10000", "computing the residuals clips the state in place")
seed("C10-a", "C10", [(GN, "JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*w.dot(us)/uK, x[istart:iend])", "JPx[isys] = JPx[isys] + s * block_unc.uS * dot(JB*JR[:, n_cov-1]/uK, x[istart:iend])")], '''
gn_rt.modules()
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 2], "forms": [[[1], [1, 4]]], "names": ["X", "m02"], "seed": 3, "opt": [True] * 8}
mu, L, F = gen.matchup(p)
N, start, Nv, ns = gn_rt.normalised(mu, L)
G = gn_rt.solver(N)
r = np.random.RandomState(0)
ny = len(G.get_JPx(np.ones(len(G.xyza))))
for k in range(len(G.xyza)):
    x = np.zeros(len(G.xyza)); x[k] = 1.
    for i in range(ny):
        y = np.zeros(ny); y[i] = 1.
        a, b = y.dot(G.get_JPx(x)), G.get_JPTx(y).dot(x)
        assert abs(a - b) < 1e-3 * (abs(a) + abs(b)) + 1e-12, (k, i, a, b)
''', "weighting matrix rows that do not sum to one with a systematic part", "the transpose product's systematic entry ignores the weighting matrix")
seed("C10-b", "C10", [(GN, "            PTx = hstack((x[0:N_var], dot(self.S.T, x[N_var:N_tot])))", "            PTx = hstack((x[0:N_var], dot(self.S, x[N_var:N_tot])))")], '''
gn_rt.modules()
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 2], "forms": [[[1], [1, 1]]], "names": ["X", "m02"], "seed": 3, "opt": [True] * 8}
mu, L, F = gen.matchup(p)
N, start, Nv, ns = gn_rt.normalised(mu, L)
G = gn_rt.solver(N, S=np.array([[1., 0.], [0.5, 2.]]))
x = np.arange(len(G.xyza)) + 1.
assert np.allclose(G.calc_Px(x, transpose=True)[-2:], np.dot(np.array([[1., .5], [0., 2.]]), x[-2:]))
''', "a preconditioner that is not symmetric (its Cholesky factor)", "the transposed preconditioner multiplies by the preconditioner itself")
seed("C11-a", "C11", [(GN, """                                # > systematic component
                                JPx[istart:iend] = JPx[istart:iend] + s*(JB*JR[:, n_cov-1])*x[isys]*block_unc.uS/uK
                                pass""", """                                # > systematic component
                                JPx[istart:iend] = JPx[istart:iend] + s*(JB*JR[:, n_cov-1])*x[isys]*block_unc.uS[0]/uK
                                pass"""), (GN, "JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*block_unc.uS/uK, x[istart:iend])", "JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*block_unc.uS[0]/uK, x[istart:iend])")], '''
gn_rt.modules()
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 2], "forms": [[[1], [1, 2]]], "names": ["X", "m02"], "seed": 3, "opt": [True] * 8}
mu, L, F = gen.matchup(p)
for u in mu.unc:
    if u.typeID == 2: u.uS = u.uS * np.array([1, 2, 3, 4], dtype=np.float32)
N, start, Nv, ns = gn_rt.normalised(mu, L)
G = gn_rt.solver(N)
x = np.zeros(len(G.xyza)); x[len(N.values) - 1] = 1.
h = 0.05
z, a = N.values.astype(float), N.a
f = lambda t: gn_rt.ref_f(mu, N, L, start, Nv, ns, z + t * x[:len(z)], a)
num = (f(h) - f(-h)) / (2 * h)
assert np.allclose(G.get_JPx(x), num, rtol=1e-2, atol=1e-3 * np.abs(num).max()), (G.get_JPx(x)[-4:], num[-4:])
''', "a systematic uncertainty that differs between the match-ups of a block", "both products use the first match-up's systematic uncertainty for the whole block (they stay adjoint)")
seed("C11-b", "C11", [(GN, "                                    self.HData.getSensorTime(n_mu, sensor_name),\n                                    n_sensor, n_mu)", "                                    self.HData.time1[mc[n_mu-1]:mc[n_mu]] if self.HData.time1 is not None else None,\n                                    n_sensor, n_mu)")], '''
gn_rt.modules()
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 2], "forms": [[[1], [1, 1]]], "names": ["X", "m02"], "seed": 3, "opt": [False] * 8}
mu, L, F = gen.matchup(p)
N, start, Nv, ns = gn_rt.normalised(mu, L)
G = gn_rt.solver(N)
x = np.zeros(len(G.xyza)); x[-1] = 1.
h = 0.05
z, a = N.values.astype(float), N.a.astype(float)
f = lambda t: gn_rt.ref_f(mu, N, L, start, Nv, ns, z, a + t * x[-2:])
num = (f(h) - f(-h)) / (2 * h)
assert np.allclose(G.get_JPx(x), num, rtol=1e-3, atol=1e-4 * np.abs(num).max()), (G.get_JPx(x)[-4:], num[-4:])
''', "a sensor model whose derivatives depend on the second sensor's match-up time", "the Jacobian evaluates the second sensor's model at the first sensor's times")
seed("C12-a", "C12", [(MM, "                    u_measurand[i_start_m:i_end_m, i_sensor_pair] = (diag(J[:, m:].dot(V).dot(J[:, m:].T))) ** 0.5", "                    u_measurand[i_start_m:i_end_m, i_sensor_pair] = ((J[:, m:] ** 2).dot(diag(V))) ** 0.5")], '''
MM = gn_rt.modules()["MM"]
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 3], "forms": [[[1], [1, 1]]], "names": ["X", "m02"], "seed": 3, "opt": [False] * 8}
mu, L, F = gen.matchup(p)
V = np.array([[4., 1., .5], [1., 3., .2], [.5, .2, 2.]])
m, J, u = MM.evaluate_measurand(mu, return_derivatives=True, parameter_covariance_matrix=V)
Jp = J[0][1][:, 2:]
assert np.allclose(u[:, 1], np.sqrt(np.einsum("ni,ij,nj->n", Jp, V, Jp)), rtol=1e-4)
''', "a covariance matrix with off-diagonal elements", "correlations between the parameters are left out of the measurand uncertainty")
seed("C12-b", "C12", [(MM, "sensor_c = asarray([c for s, c in zip(MatchUpData.idx['sensor_model_constant_sensor'], MatchUpData.sensor_model_constant) if s == sensor_name], dtype=float64)", "sensor_c = asarray([c for s, c in zip(MatchUpData.idx['sensor_model_constant_sensor'], MatchUpData.sensor_model_constant) if s.startswith(sensor_name)], dtype=float64)")], '''
MM = gn_rt.modules()["MM"]
p = {"series": [[0, 1, 4], [1, 2, 3]], "m": [1, 2, 2], "npar": [0, 2, 2], "forms": [[[1], [1, 1]], [[1, 1], [1, 1]]], "names": ["X", "n1", "n19"], "seed": 3, "opt": [False] * 8}
sd = gen.sensor_data(p)
sd["n1"]["sensor_model_constant"] = [1.0]; sd["n19"]["sensor_model_constant"] = [100.0]
mu, L, F = gen.matchup(p, sd=sd)
m = MM.evaluate_measurand(mu)
sd["n19"]["sensor_model_constant"] = [200.0]
mu2, L, F = gen.matchup(p, sd=sd)
assert np.allclose(MM.evaluate_measurand(mu2)[:4, 1], m[:4, 1]), "sensor n1's measurand depends on sensor n19's constants"
''', "a sensor whose name is the beginning of another sensor's name, with model constants", "the model is given the other sensor's constants too")
seed("C17-a", "C17", [(SIM, "        values_sim = linspace(min(values), max(values), n_sim)", "        values_sim = linspace(min(values), max(values), n_sim, endpoint=n_sim > 2 or n_sim == 1)")], '''
boot.inject()
from harmonisation.core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp
p = {"series": [[0, 1, 4]], "m": [1, 2], "npar": [0, 3], "forms": [[[1], [1, 1]]], "names": ["X", "m02"], "seed": 3, "opt": [False] * 8}
mu, L, F = gen.matchup(p)
S = SimulateMatchUp().run(mu, n_samples_mu=2)
assert np.isclose(S.values[1], mu.values[:4].max(), rtol=1e-5)
''', "a sample count of two", "the simulated data do not reach the maximum")
seed("C17-b", "C17", [(SIM, "        MatchUpSimulation.ks = self.return_simulation_x(MatchUpData.ks, MatchUpData.idx['cNm'],\n                                                        MatchUpSimulation.idx['cNm'])", "        MatchUpSimulation.ks = self.return_simulation_x(MatchUpData.ks, MatchUpData.idx['idx'][:len(MatchUpData.idx['cNm'])],\n                                                        MatchUpSimulation.idx['cNm'])")], '''
boot.inject()
from harmonisation.core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp
p = {"series": [[0, 1, 3], [0, 2, 6]], "m": [1, 2, 2], "npar": [0, 3, 2], "forms": [[[1], [1, 1]], [[1], [1, 1]]], "names": ["X", "m02", "n19"], "seed": 3, "opt": [False] * 8}
mu, L, F = gen.matchup(p)
S = SimulateMatchUp().run(mu, n_samples_mu=4)
assert np.isclose(S.ks[7], mu.ks[3:].max(), rtol=1e-5), (S.ks, mu.ks)
''', "more than one series", "the adjustment factors of the second series are simulated from a range taken over the wrong match-ups")
