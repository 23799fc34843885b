"""Planted changes for C01-C05, C16 and C18-C26."""
import sys
sys.path.insert(0, "/verif/tools_dev")
from mkseed import mkseed
C = "harmonisation_eiv/harmonisation/core/matchup/"
MU, RD, WR = C + "matchupIO/MatchUp.py", C + "matchupIO/MatchUpReader.py", C + "matchupIO/MatchUpWriter.py"
S2I = C + "matchupProcessing/sample2ind/Sample2Ind.py"
S2X = C + "matchupProcessing/sample2ind/cython_lib_sample2ind.pyx"
HP = C + "matchupToolbox/harmonisation/harmonisationProcessing/"
GN, PC = HP + "harmonisation_eiv/GN_algo.py", HP + "harmonisation_eiv_pc/pc_algo.py"
HR = C + "matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py"
HO = "harmonisation_eiv/harmonisation/tools/HarmonisationOp.py"
ST = "harmonisation_eiv/harmonisation/core/utils/stats.py"
GW, AV, BT, CK, PM, WM = ["tools/%s.py" % x for x in ("generate_w_matrices", "AVHRR_to_updated_spec", "convert_bt_to_radiance", "harmonisation_input_checker", "pmh2fiduceo", "W_matrix_functions")]
which = set(sys.argv[1:])
EXTRA = {"C05": ("C02", "C03")}


def seed(id, prop, edits, demo, needs, breaks, more=()):
    if which and id not in which: return
    mkseed(id, prop, edits, demo, needs, breaks, lib=bool(more), more=more)


def rt(id, prop, edits, needs, breaks, n=60, rng=11, sel="True", tier="quick"):
    """Demonstration: the documented behaviour recomputed independently on random inputs."""
    seed(id, prop, edits, '''
import importlib, itertools
m = importlib.import_module("demolib.%s")
bad = []
for p in itertools.islice((p for p in m.cases(random.Random(%d), "%s") if %s), %d):
    try: bad += list(m.check(p))
    except Exception as e: bad.append(("exception", repr(e)))
    if bad: break
for b in bad: print(str(b)[:300])
sys.exit(1 if bad else 0)
''' % (prop, rng, tier, sel, n), needs, breaks, more=(prop,) + EXTRA.get(prop, ()))


# C16 ---------------------------------------------------------------------------------------------------------------
rt("C16-a", "C16", [(S2X, "                sampled_cols[j][row_cols] = True", "                sampled_cols[j][row_cols[:-1]] = True")],
   "windows whose only shared scan line is the last one of an earlier sampled match-up's window", "the last column of a sampled row is not marked as used, so two sampled match-ups can share it", 160)
rt("C16-b", "C16", [(S2I, "                MatchUpSample.across_track_index2[istart_s:iend_s] = MatchUpData.across_track_index2[istart:iend][s_idx]",
    "                MatchUpSample.across_track_index2[istart_s:iend_s] = MatchUpData.across_track_index2[istart_s:iend_s]")],
   "a subsample of a series with the second sensor's pixel index", "the sample's pixel indices are the series' first ones instead of those of the sampled match-ups", 160)
rt("C16-c", "C16", [(S2I, "                                    if (MatchUpData.unc[mu_block_idx].typeID == 3)\n                                    or (MatchUpData.unc[mu_block_idx].typeID == 4)]",
    "                                    if (MatchUpData.unc[mu_block_idx].typeID == 3)]")],
   "a series whose weighted variables are all weighted+systematic, or that mixes both forms with different windows", "rows of weighted+systematic matrices are not tested for independence", 160)
# C18 ---------------------------------------------------------------------------------------------------------------
rt("C18-a", "C18", [(HR, "                        values_res[i_start:i_end] = dataset.variables['X' + str(i_sensor_pair + 1) + '_res'][:, i_cov]",
     "                        values_res[i_start:i_end] = dataset.variables['X' + str(min(n_sensor, i_sensor_pair) + 1) + '_res'][:, i_cov]")],
   "a series in which the first listed sensor of all files is the second of its pair", "that sensor's residuals are read from the other sensor's variable", 120)
rt("C18-b", "C18", [(HR, "            n_mu_refs = [int(i + 1) for i, pair in enumerate(Im) if 0 in pair]", "            n_mu_refs = [int(i + 1) for i, pair in enumerate(Im) if 0 == pair[0]]")],
   "a series in which the first listed sensor is the second of its pair", "the block list of the first sensor omits those series", 120)
rt("C18-c", "C18", [(HR, "        max_l_name = 80\n        l_name = rootgrp", "        max_l_name = max([len(str(p)) for p in parameter_sensors])\n        l_name = rootgrp")],
   "a reported systematic error of a sensor whose name is longer than every name that owns parameters", "sensor names of systematic errors are cut to the longest parameter sensor name", 120)
# C19 ---------------------------------------------------------------------------------------------------------------
rt("C19-a", "C19", [(GW, "    relative_column_postions = asarray(relative_column_postions)\n", "    relative_column_postions = asarray(relative_column_postions).astype('int16')\n")],
   "a file whose match-ups are more than 32767 scan lines apart (a day of data)", "positions wrap around and rows far apart share columns", 300)
rt("C19-b", "C19", [(GW, "    JA = zeros(num_matchups * kernel_size, dtype=int32)\n", "    JA = zeros(num_matchups * kernel_size, dtype='int16')\n")],
   "match-ups more than 32767 scan lines apart in one file", "column numbers wrap around and distant windows land on the wrong columns", 300)
rt("C19-c", "C19", [(GW, "        WA[i*kernel_size:i*kernel_size+kernel_size] = weights\n", "        WA[i*kernel_size:i*kernel_size+kernel_size] = weights if column_position else ones(kernel_size) / kernel_size\n")],
   "weights that are not uniform", "the rows of the earliest match-ups get uniform weights", 300)
# C20 ---------------------------------------------------------------------------------------------------------------
# C21 ---------------------------------------------------------------------------------------------------------------
seed("C21-a", "C21", [(BT, "            tstar = self.aval[filterval-1]+\\\n                self.bval[filterval-1]*temperature[gd]\n", "            tstar = self.aval[filterval-1]+\\\n                self.bval[filterval-2]*temperature[gd]\n")], """
from convert_bt_to_radiance import convertBT
c = convertBT("m02")
for ch in (1, 2, 3):
    t = np.array([220., 300.])
    assert np.allclose(c.rad2temp(c.temp2rad(t, ch), ch), t, rtol=1e-9), (ch, c.rad2temp(c.temp2rad(t, ch), ch))
    assert np.allclose(c.temp2rad(t, ch), [c.temp2rad(x, ch) for x in t], rtol=1e-12)
""", "arrays (scalars stay right)", "the array branch uses the band correction slope of another channel")
seed("C21-b", "C21", [(BT, "            outBT = np.zeros(rad.shape)\n", "            outBT = np.zeros_like(rad)\n"), (BT, "            outR = np.zeros(temperature.shape)\n", "            outR = np.zeros_like(temperature, dtype=np.float64 if temperature.dtype.kind == 'f' else np.int64)\n")], """
from convert_bt_to_radiance import convertBT
c = convertBT("n15")
for t in (np.array([280, 301]), np.array([280., 301.])):
    try: r = c.temp2rad(t, 2)
    except ValueError: sys.exit(1)
    assert np.allclose(c.rad2temp(r, 2), t, rtol=1e-9), (t, r)
""", "integer temperatures", "radiances of whole-number temperature arrays are truncated to integers")
# C22 ---------------------------------------------------------------------------------------------------------------
rt("C22-a", "C22", [(CK, "            i_w_u_vectors = u_matrix_use[where(w_matrix_use == i+1)[0]] - 1", "            i_w_u_vectors = u_matrix_use[where(w_matrix_use == i+1)[0][:1]] - 1")],
   "a weighting matrix shared by two variables with different uncertainty vectors, the second of another length", "only the first paired uncertainty vector's length is compared with the matrix width", 180, sel="p['kind'] == 'width2'", tier="thorough")
rt("C22-b", "C22", [(CK, "        use_num_ws = max(max(rootgrp.variables[\"w_matrix_use1\"][:]),max(rootgrp.variables[\"w_matrix_use2\"][:]))\n        if dim_num_ws != use_num_ws:", "        use_num_ws = max(max(rootgrp.variables[\"w_matrix_use1\"][:]),max(rootgrp.variables[\"w_matrix_use2\"][:]))\n        if dim_num_ws < use_num_ws:")],
   "a file with a weighting matrix no variable uses", "superfluous weighting matrices are not reported", 180)
# C23 ---------------------------------------------------------------------------------------------------------------
rt("C23-a", "C23",
   [(ST, "    bin_ranges = [X_range[0] + i*(X_range[1]-X_range[0])/bins for i in range(bins+1)]", "    step = (X_range[1]-X_range[0])//bins if isinstance(X_range[0], int) else (X_range[1]-X_range[0])/bins\n    bin_ranges = [X_range[0] + i*step for i in range(bins+1)]")],
   "a requested range given as whole numbers whose length is not a multiple of the bin count", "bins do not cover the requested range", 400)
seed("C23-b", "C23", [(ST, "    time_min_period = [1970, 1, 1, 0, 0]\n", "    time_min_period = [1970, 1, 1, 0, 0]\n    first = times[0]\n"), (ST, "    time_min = [i for i in times.min().timetuple()]", "    time_min = [i for i in min(times[0], times[-1]).timetuple()]")], """
import datetime as dt
from harmonisation.core.utils.stats import time_average
t = np.array([dt.datetime(2001, 3, 5), dt.datetime(2001, 1, 7), dt.datetime(2001, 4, 1)], dtype=object)
v, w = time_average(np.array([1., 2., 3.]), t, "month")
assert list(w) == [dt.datetime(2001, m, 1) for m in (1, 2, 3, 4)], w
assert v[0] == 2 and np.isnan(v[1]) and v[2] == 1 and v[3] == 3
""", "times in no particular order", "samples before the first and last stored one fall out of the averages")
# C24 ---------------------------------------------------------------------------------------------------------------
rt("C24-a", "C24", [(PC, "                    Ja[istart:iend, i_sensor_p] = s * outer(JB, ones(N_sensor_p)) * JR[:, N_cov:N_cov+N_sensor_p] / uK[:, None]",
     "                    Ja[istart:iend, i_sensor_p] = s * outer(JB, ones(N_sensor_p)) * JR[:, -N_sensor_p:] / uK[0]")],
   "match-ups of a series with different adjustment-factor uncertainties", "the Jacobian is divided by the first match-up's adjustment-factor uncertainty", 240)
rt("C24-b", "C24", [(PC, "                        if block_unc.typeID == 2:\n                            JK = s * diag(JB*JR[:, n_cov-1]) * block_unc.uR / uK\n", "                        if block_unc.typeID == 2:\n                            JK = s * diag(JB*JR[:, n_cov-1]) * (block_unc.uR**2 - block_unc.uS**2).clip(0)**0.5 / uK\n")],
   "variables with shared systematic errors", "the random variance of random+systematic variables is reduced by the systematic one", 240)
# C25 ---------------------------------------------------------------------------------------------------------------
rt("C25-a", "C25", [(GN, "            cost_previous = cost\n", "            cost_previous = min(cost, cost_previous)\n")],
   "a step that increases the cost followed by ones that reduce it", "cost reduction is measured against the best cost so far", 140)
rt("C25-b", "C25", [(GN, "            norm_d = norm(d, inf)\n", "            norm_d = norm(LSMROp.x, inf)\n")],
   "a preconditioner that is not the identity and a step near the tolerance", "the step size test uses the preconditioned step", 140)
rt("C25-c", "C25", [(GN, "            systematic_errors = self.xyza[N_var - n_uS:N_var]", "            systematic_errors = self.xyza[-N_a - n_uS:-N_a] - d[-N_a - n_uS:-N_a]")],
   "systematic errors still moving in the last iteration", "the reported systematic errors are the last but one iterate's", 140)
# C26 ---------------------------------------------------------------------------------------------------------------
rt("C26-a", "C26", [(GN, "        parameter_covariance_matrix_ijs = pool.map(self.calculate_parameter_covariance_matrix_ij, ijs)\n        for parameter_covariance_matrix_ij, ij in zip(parameter_covariance_matrix_ijs, ijs):\n            parameter_covariance_matrix[ij[0], ij[1]] = parameter_covariance_matrix_ij\n",
     "        ijs = [ij for ij in ijs if ij[0] >= ij[1]]\n        parameter_covariance_matrix_ijs = pool.map(self.calculate_parameter_covariance_matrix_ij, ijs)\n        for parameter_covariance_matrix_ij, ij in zip(parameter_covariance_matrix_ijs, sorted(ijs, key=str)):\n            parameter_covariance_matrix[ij[0], ij[1]] = parameter_covariance_matrix_ij\n            parameter_covariance_matrix[ij[1], ij[0]] = parameter_covariance_matrix_ij\n")],
   "more than ten parameters", "elements are paired with their indices in text order", 90)
rt("C26-b", "C26", [(GN, "        c[N_var + i] = 1\n        d[N_var + j] = 1\n", "        c[N_var + i] = 1\n        d[-(N_a - j)] = 1 if i <= j else 0\n        d[-(N_a - i)] += 0 if i <= j else 1\n        c = c if i <= j else c[::1] * 0\n        c[N_var + (i if i <= j else i)] = 1\n")],
   "elements below the diagonal", "elements below the diagonal are the diagonal's", 90)
# C01-C05 -----------------------------------------------------------------------------------------------------------
rt("C01-a", "C01", [(RD, "                for i, pair in enumerate(Im)\n                for s in pair if sensor_ms[s] >= m_i]\n        return n_mu", "                for i, pair in enumerate(Im)\n                for s in sorted(pair, key=lambda q: sensor_ms[q] < m_i) if sensor_ms[s] >= min(m_i, max(sensor_ms[q] for q in pair))]\n        return n_mu")],
   "sensors with different numbers of variables in one series", "blocks of a variable only one sensor has are listed for both", 120)
rt("C01-b", "C01", [(RD, """        sensor_list = [num for pair in Im for num in pair]
        n_sensor = [int(s) for m_i""", """        sensor_list = [num for pair in Im for num in sorted(pair)]
        n_sensor = [int(s) for m_i""")],
   "a series whose first sensor appeared after its second one in the files", "that series' blocks are listed in the order the sensors appeared, not in the order of the pair", 166)
rt("C02-a", "C02", [(RD, "                    index[i_start:i_end] = dataset.variables[index_name][:].astype(int32)\n\n                else:\n                    index[i_start:i_end] = nan", "                    index[i_start:i_end] = dataset.variables[index_name][:].astype(int32)\n\n                elif i_matchup > 0:\n                    index[i_start:i_end] = nan")],
   "the first file lacks an index variable another file has", "the first series' indices are 0 instead of missing", 150)
rt("C02-b", "C02", [(RD, "            time2[i_start:i_end] = self._seconds2date(dataset.variables['time2'][:])", "            time2[i_start:i_end] = self._seconds2date(dataset.variables['time2'][:].round())")],
   "times with a fraction of half a second or more", "second sensor's times are rounded up instead of whole seconds", 150)
rt("C03-a", "C03",
   [(RD, "        for i, block_index in enumerate(zip(idx['n_sensor'], idx['n_cov'])):", "        for i, block_index in enumerate(zip(idx['n_sensor'], [min(n, 2) for n in idx['n_cov']])):")],
   "a sensor whose second and third (or later) variables both have a systematic component", "the third variable shares the second's systematic error", 170)
rt("C03-b", "C03", [(RD, "                        unc[block_idx] = Uncertainty(4, (w_matrix_idx, u_matrix_idx,\n                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][0, i_cov]))",
   "                        unc[block_idx] = Uncertainty(4, (w_matrix_idx, u_matrix_idx,\n                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][0, min(i_cov, i_matchup + 1)]))")],
   "a weighted+systematic third variable in the first file", "its systematic uncertainty is the second variable's", 170)
rt("C04-a", "C04",
   [(WM, "    for w, w_nnz in zip(w_matrices, w_matrix_nnz):\n        iend += w_nnz\n        w_matrix_val[istart:iend] = w.data\n        w_matrix_col[istart:iend] = w.indices", "    for w, w_nnz in zip(w_matrices, w_matrix_nnz):\n        iend += w_nnz\n        w_matrix_val[istart:iend] = w.data\n        w_matrix_col[istart:iend] = w.indices if w is w_matrices[0] or w_nnz != w_matrices[0].nnz else w_matrices[0].indices")],
   "a later matrix with as many entries as the first but in other columns", "its column indices are the first matrix's", 220)
rt("C04-b", "C04",
   [(RD, "        shape = (len(indptr) - 1, max(indices) + 1)", "        shape = (len(indptr) - 1, indices[-1] + 1)")],
   "a matrix whose last row does not reach its last column", "the matrix is read with too few columns", 220)
rt("C05-a", "C05",
   [(WR, "        Us2_var = rootgrp.createVariable('Us2', 'f8', ('M', 'm2'), zlib=True, complevel=9)", "        Us2_var = rootgrp.createVariable('Us2', 'f8', ('M', 'm1' if X1.shape == X2.shape else 'm2'), zlib=True, complevel=9)")],
   "two sensors with the same number of variables", "the second sensor's systematic uncertainties are stored under the first sensor's dimension", 110)
rt("C05-b", "C05", [(WM, "    uncertainty_type2_var[:] = uncertainty_type2[:]", "    uncertainty_type2_var[:] = uncertainty_type2[:] if len(uncertainty_type1) != len(uncertainty_type2) else uncertainty_type1[:]")],
   "sensors with equally many variables but different uncertainty forms", "the second sensor's forms are the first's (tool writer)", 110)


# C24 (solution), C29, C30 ------------------------------------------------------------------------------------------------------
EIV, SD = HP + "harmonisation_eiv/HarmonisationEIV.py", MU
rt("C24-c", "C24", [(PC, "        V = dot(U, U.T)", "        V = dot(U.T, U)")],
   "two or more parameters", "the preconditioner's covariance is not the inverse of the normal matrix", 60)
rt("C24-d", "C24", [(PC, "            self.LK = self.calc_LK(self.HData)\n\n", "            self.LK = self.calc_LK(self.HData)\n\n            if niter > 0:\n                a0 = (a0 + HData.a) / 2\n\n")],
   "an iteration that needs more than one repetition", "each further repetition starts halfway back to the initial parameters, and the step that decides convergence is taken from there", 60)
rt("C29-a", "C29", [(RD, """                sensor_model_constant_sensor += [sensor for a in sensor_data[sensor]["sensor_model_constant"]]""",
   """                sensor_model_constant_sensor += [sensor for a in sensor_data[sensor]["sensor_model_constant"] if a]""")],
   "a sensor with a model constant of 0", "constants that are zero get no label, so later constants are labelled with the wrong sensor", 120)
rt("C29-b", "C29", [(RD, "                adjustment_model.append(self._default_adjustment_model)", "                adjustment_model.append(adjustment_model[-1] if adjustment_model else self._default_adjustment_model)")],
   "a sensor that names no adjustment model, listed after one that names its own", "the sensor inherits the previous sensor's adjustment model", 120)
rt("C29-c", "C29", [(RD, "            if sensor in idx['sensors']:\n                sensor_model_parameter +=", "            if sensor in idx['sensors']:\n                sensor_model_parameter = sensor_model_parameter or sensor_data[sensor][\"sensor_model_parameter\"]\n                if sensor_model_parameter is not sensor_data[sensor][\"sensor_model_parameter\"]: sensor_model_parameter +=")],
   "sensor data set twice, or used again afterwards", "the first sensor's own parameter list in the sensor data grows by the other sensors' parameters", 120)
rt("C30-a", "C30", [(EIV, "            GNOp.S = cholesky(preconditioner.parameter_covariance_matrix)", "            GNOp.S = cholesky(preconditioner.parameter_covariance_matrix) if pc_input is None else GNOp.S")],
   "a run continued from a solver state with a preconditioner read from a file", "the preconditioner read is not applied: the solver keeps the one of the saved state", 160)
rt("C30-b", "C30", [(HO, "                                                gn_input=gn_input, save_gn=save_gn,", "                                                gn_input=gn_input, save_gn=save_gn or gn_input,")],
   "a run started from a solver state without asking for the final one to be saved", "the solver state read is overwritten with the final state", 160)
rt("C30-c", "C30", [(GN, "        variables_t_estimate_var[:] = self.xyza", "        variables_t_estimate_var[:] = append(self.xyza[:-self.S.shape[0]], self.HData.a)")],
   "a solver state saved after the parameters have moved", "the saved state holds the starting parameters instead of the current ones", 160)
# C31 ---------------------------------------------------------------------------------------------------------------
AV, MWT, PMH = "tools/AVHRR_to_updated_spec.py", "tools/MW_add_W_matrices.py", "tools/pmh2fiduceo.py"
NA = 'p["kind"] != "avhrr"'          # (AVHRR files: recorded findings)
rt("C31-a", "C31", [(MWT, """    if (sensor_1_instrument == "MHS") and (sensor_2_instrument == "AMSUB"):
        w_matrix_use1 = array([1, 1, 1, 1, 1, 1, 1, 0, 0], dtype=int8)
        w_matrix_use2 = array([2, 2, 2, 2, 2, 2, 2, 2, 2, 0, 0], dtype=int8)
        u_matrix_use1 = array([1, 2, 3, 3, 3, 3, 3, 0, 0], dtype=int8)
        u_matrix_use2 = array([4, 5, 6, 6, 6, 6, 6, 6, 6, 0, 0], dtype=int8)""", """    if (sensor_1_instrument == "MHS") and (sensor_2_instrument == "AMSUB"):
        w_matrix_use1 = array([1, 1, 1, 1, 1, 1, 1, 0, 0], dtype=int8)
        w_matrix_use2 = array([2, 2, 2, 2, 2, 2, 2, 2, 2, 0, 0], dtype=int8)
        u_matrix_use1 = array([1, 2, 3, 3, 3, 3, 3, 0, 0], dtype=int8)
        u_matrix_use2 = array([4, 5, 6, 6, 6, 6, 6, 3, 3, 0, 0], dtype=int8)""")],
   "an MHS sensor matched with an AMSU-B sensor, of different uncertainties", "the last two averaged variables of the second sensor get the first sensor's uncertainties", 160, sel=NA)
rt("C31-b", "C31", [(PMH, """        if sensor_pair[0] == '0':
            w_matrix_use1 = array([0], int8)""", """        if sensor_pair[0] == min([s[0] for s in Im]):
            w_matrix_use1 = array([0], int8)""")],
   "simulated data none of whose series has the reference sensor", "the first sensor's averaged variables lose their matrices", 200, sel=NA)
rt("C31-c", "C31", [(MWT, "    elif sensor_1_instrument == \"MHS\":\n        Ur1[:, :7] = 0\n", "    elif sensor_1_instrument == \"MHS\":\n        Ur1[:, :Ur2.shape[1]-2] = 0\n")],
   "a pair of one MHS and one AMSU-B sensor", "random uncertainty of a variable of the MHS sensor that is not averaged is zeroed", 160, sel=NA)
rt("C31-d", "C31", [(PMH, "        X2 = H[i_start:i_end, nX:2*nX]\n", "        X2 = H[i_start:i_end, X1.shape[1]:2*nX][:, -nX:] if i == 0 else H[i_start:i_end, -nX-1:-1] if sensor_pair[0] != '0' else H[i_start:i_end, nX:2*nX] * (H.shape[0] > i_end) + H[i_start:i_end, :nX] * (H.shape[0] <= i_end)\n")],
   "a last series with the reference sensor that is not the first one", "its second sensor's counts are taken from the first sensor's columns", 160, sel=NA)
# C27 ---------------------------------------------------------------------------------------------------------------
KL, KM = [HP + "harmonisation_eiv/pykrylov_%s.py" % x for x in ("lsmr", "minres")]
rt("C27-a", "C27", [(KL, "            tautildeold   = (zetaold - thetatildeold*tautildeold)/rhotildeold\n", "            tautildeold   = (zetaold - thetatilde*tautildeold)/rhotildeold\n")],
   "a least-squares problem with a residual that needs three or more iterations", "the reported residual norm is not that of the solution from the third iteration on", 300)
rt("C27-b", "C27", [(KL, "        Mu = b.copy()\n", "        Mu = b\n")],
   "a caller that uses its right-hand side again after the solution", "the right-hand side is scaled in place", 300)
rt("C27-c", "C27", [(KL, "            rtol    = btol + atol*normA*normx/normb\n", "            rtol    = btol + atol*normA*normx\n")],
   "a compatible system whose right-hand side is longer than 1, with an absolute tolerance", "LSMR stops as converged with a residual above the tolerance", 300)
rt("C27-d", "C27", [(KM, "                oldeps = epsln\n", ""), (KM, "                dbar   =            -  cs * beta  # dbar 2 = beta2     dbar k+1\n", "                dbar   =            -  cs * beta  # dbar 2 = beta2     dbar k+1\n                oldeps = epsln\n")],
   "a symmetric system that needs three or more iterations", "the solution drifts from the residual norm reported", 300)
rt("C27-e", "C27", [(KL, "            normA         = sqrt(normA2)\n            normA2        = normA2 + alpha*alpha\n", "            normA2        = normA2 + alpha*alpha\n            normA         = sqrt(normA2)\n")],
   "any system in which the last computed coefficient is not small", "the norm of the operator includes a coefficient of the next iteration, so the tolerances are looser than requested", 300)
rt("C27-f", "C27", [(KM, "                Arnorm = phibar * root\n\n                # Compute the next plane rotation Qk\n\n                gamma  = self.normof2(gbar, beta)       # gammak\n                gamma  = max(gamma, eps)\n                cs     = gbar / gamma             # ck\n                sn     = beta / gamma             # sk\n                phi    = cs * phibar              # phik\n                phibar = sn * phibar              # phibark+1\n",
   "\n                # Compute the next plane rotation Qk\n\n                gamma  = self.normof2(gbar, beta)       # gammak\n                gamma  = max(gamma, eps)\n                cs     = gbar / gamma             # ck\n                sn     = beta / gamma             # sk\n                phi    = cs * phibar              # phik\n                phibar = sn * phibar              # phibark+1\n                Arnorm = phibar * root\n")],
   "a symmetric system of two or more distinct eigenvalues", "the reported norm of A r is that of no iterate", 300)
