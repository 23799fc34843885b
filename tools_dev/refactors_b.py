"""More edits that keep the behaviour (C18-C30); imported by refactors.py."""
C = "harmonisation_eiv/harmonisation/core/matchup/"
HP = C + "matchupToolbox/harmonisation/harmonisationProcessing/"
GN, PC, EIV = HP + "harmonisation_eiv/GN_algo.py", HP + "harmonisation_eiv_pc/pc_algo.py", HP + "harmonisation_eiv/HarmonisationEIV.py"
HR = C + "matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py"
HO = "harmonisation_eiv/harmonisation/tools/HarmonisationOp.py"
MU, RD, WR = C + "matchupIO/MatchUp.py", C + "matchupIO/MatchUpReader.py", C + "matchupIO/MatchUpWriter.py"
ST = "harmonisation_eiv/harmonisation/core/utils/stats.py"
MWT = "tools/MW_add_W_matrices.py"
GW, AV, BT, CK, PM, WM = ["tools/%s.py" % x for x in ("generate_w_matrices", "AVHRR_to_updated_spec", "convert_bt_to_radiance", "harmonisation_input_checker", "pmh2fiduceo", "W_matrix_functions")]

KL, KM = [HP + "harmonisation_eiv/pykrylov_%s.py" % x for x in ("lsmr", "minres")]

R = {
 "res-helper": (["C18"], [(HR, """                        block_idx = block_idxs.index((n_sensor, i_matchup + 1, i_cov + 1))
                        i_start = idx['idx'][block_idx]
                        i_end = idx['idx'][block_idx + 1]

                        # Populate array
                        X_res[:, i_cov] = values_res[i_start:i_end]""", """                        X_res[:, i_cov] = self._block(values_res, idx, block_idxs, (n_sensor, i_matchup + 1, i_cov + 1))"""),
   (HR, """    def __enter__(self):""", """    @staticmethod
    def _block(values, idx, block_idxs, labels):
        at = block_idxs.index(labels)
        return values[idx['idx'][at]:idx['idx'][at + 1]]

    def __enter__(self):""")]),
 "res-k-direct": (["C18"], [(HR, """            i_start = idx['cNm'][i_matchup]
            i_end = idx['cNm'][i_matchup + 1]

            # Add to file
            k_res_var[:] = ks_res[i_start:i_end]""", """            k_res_var[:] = ks_res[idx['cNm'][i_matchup]:idx['cNm'][i_matchup + 1]]""")]),
 "res-sensors": (["C18"], [(HR, """                if sensor in sensors:
                    Im[i][j] = sensors.index(sensor)
                else:
                    sensors.append(sensor)
                    sensor_ms.append(sensor_m)
                    Im[i][j] = sensors.index(sensor)""", """                if sensor not in sensors:
                    sensors.append(sensor)
                    sensor_ms.append(sensor_m)
                Im[i][j] = sensors.index(sensor)""")]),
 "rolling-round": (["C19"], [(GW, """        scanline_pos = 0
        if i > 0:
            scanline_pos = int(round(float(matchup_times[i]-matchup_times[0])/scanline_time))

        relative_column_postions.append(int(scanline_pos))""", """        offset = float(matchup_times[i]-matchup_times[0])
        relative_column_postions.append(int(round(offset/scanline_time)))""")]),
 "rolling-ia": (["C19"], [(GW, """    IA = zeros(num_matchups+1, dtype=int32)
    for i in range(num_matchups+1):
        IA[i] = i*kernel_size
""", """    IA = arange(num_matchups+1, dtype=int32)*kernel_size
""")]),
 "rolling-ends": (["C19"], [(GW, """        WA[i*kernel_size:i*kernel_size+kernel_size] = weights
        JA[i*kernel_size:i*kernel_size+kernel_size] = arange(column_position, column_position+kernel_size)""", """        first, last = i*kernel_size, (i+1)*kernel_size
        JA[first:last] = column_position + arange(kernel_size)
        WA[first:last] = weights""")]),
 "mask-any": (["C20"], [(AV, """        if (where(isnan(row11))[0].size != 0) or (where(isnan(row12))[0].size != 0) or \\
                (where(isnan(row21))[0].size != 0) or (where(isnan(row22))[0].size != 0):
            valid_averages[i] = False""", """        for row in (row11, row12, row21, row22):
            if isnan(row).any():
                valid_averages[i] = False""")]),
 "mask-limit": (["C20"], [(AV, """            if bt[i] < temp_lim:
                valid_averages[i] = False
            else:
                pass
""", """            valid_averages[i] = valid_averages[i] and not (bt[i] < temp_lim)
""")]),
 "bt-factor": (["C21"], [(BT, """            gd = (rad > 0.) & np.isfinite(rad)     
            tstar = C2*self.nuc[filterval-1]/\\
                np.log((C1*(self.nuc[filterval-1]**3)/rad[gd])+1.)        
""", """            nu = self.nuc[filterval-1]
            gd = np.isfinite(rad) & (rad > 0.)
            tstar = C2*nu/np.log(1. + C1*nu**3/rad[gd])
""")]),
 "bt-full": (["C21"], [(BT, """            outR = np.zeros(temperature.shape)
            if 3 == len(temperature.shape):
                outR[:,:,:] = float('nan')
            elif 2 == len(temperature.shape):
                outR[:,:] = float('nan')
            elif 1 == len(temperature.shape):
                outR[:] = float('nan')
""", """            outR = np.full(temperature.shape, np.nan)
""")]),
 "check-comprehension": (["C22"], [(CK, """    missing_variables = []
    for required_variable in required_variables:
        if required_variable not in rootgrp.variables.keys():
            missing_variables.append(required_variable)

    # If variables missing return error message with missing variable names
    if missing_variables != []:""", """    missing_variables = [v for v in required_variables if v not in rootgrp.variables.keys()]

    # If variables missing return error message with missing variable names
    if missing_variables:""")]),
 "check-dims-helper": (["C22"], [(CK, """        elif variable in W_VARIABLE_DATA.keys():
            expected_dims = W_VARIABLE_DATA[variable]["dim"]
            if (expected_dims != []) and (test_dims != expected_dims):
                errors.append("Dimension Error: Dimension of '" + variable + "' must be " + str(expected_dims) +
                              ", not " + str(test_dims))
""", """        elif variable in W_VARIABLE_DATA.keys():
            errors += _dimension_errors(variable, W_VARIABLE_DATA[variable]["dim"], test_dims)
"""), (CK, """def check_variable_dtype(rootgrp):""", """def _dimension_errors(variable, expected, found):
    if expected and found != expected:
        return ["Dimension Error: Dimension of '%s' must be %s, not %s" % (variable, expected, found)]
    return []


def check_variable_dtype(rootgrp):""")]),
 "check-w-width": (["C22"], [(CK, """        istart = 0
        iend = 0
        for i, w_matrix_nnz_i in enumerate(w_matrix_nnz):
            # Find highest column number in w matrix
            iend += w_matrix_nnz_i
            max_col = max(w_matrix_col[istart:iend]) + 1
""", """        istart = 0
        for i, w_matrix_nnz_i in enumerate(w_matrix_nnz):
            # Find highest column number in w matrix
            iend = istart + w_matrix_nnz_i
            max_col = 1 + max(w_matrix_col[istart:iend])
""")]),
 "check-unc-flags": (["C22"], [(CK, """            rand = False
            randsys = False
            w = False
            wsys = False
            if (Ur1[:, col] > 0).all() and (Us1[:, col] == 0).all():
                rand = True
            if (Ur1[:, col] > 0).all() and (Us1[:, col] > 0).all():
                randsys = True
            if w_matrix_use1[col] > 0 and (Us1[:, col] == 0).all():
                w = True
            if w_matrix_use1[col] > 0 and (Us1[:, col] > 0).all():
                wsys = True
""", """            some_random = bool((Ur1[:, col] > 0).all())
            no_systematic = bool((Us1[:, col] == 0).all())
            all_systematic = bool((Us1[:, col] > 0).all())
            weighted = bool(w_matrix_use1[col] > 0)
            rand = some_random and no_systematic
            randsys = some_random and all_systematic
            w = weighted and no_systematic
            wsys = weighted and all_systematic
""")]),
 "stats-bins": (["C23"], [(ST, """        in_bin = (X >= bin_min) & (X < bin_max)
        if i == len(bins) - 1:
            in_bin = (X >= bin_min) & (X <= X_range[1])
        ind = np.where(in_bin)
        vals = Y[ind]
""", """        last = (i == len(bins) - 1)
        below = (X <= X_range[1]) if last else (X < bin_max)
        vals = Y[(X >= bin_min) & below]
""")]),
 "stats-start": (["C23"], [(ST, """    time_min = [i for i in times.min().timetuple()]
    time_min_period = [1970, 1, 1, 0, 0]
    for i in range(date_figs):
        time_min_period[i] = time_min[i]
    current_time = dt.datetime(*time_min_period)
""", """    earliest = list(times.min().timetuple())
    current_time = dt.datetime(*(earliest[:date_figs] + [1970, 1, 1, 0, 0][date_figs:]))
""")]),
 "pc-sign": (["C24"], [(PC, """                s = -1
                if j == 1:
                    s = 1

                # > if reference sensor
                if JR is None:

                    # find uncertainty data""", """                s = 1 if j == 1 else -1

                # > if reference sensor
                if JR is None:

                    # find uncertainty data""")]),
 "pc-block": (["C24"], [(PC, """                        VK[istart:iend, istart:iend] = VK[istart:iend, istart:iend] + dot(JK, JK.T)

        VK = VK + dot(JT, JT.T)
""", """                        VK[istart:iend, istart:iend] += dot(JK, JK.T)

        VK += dot(JT, JT.T)
""")]),
 "pc-hoist": (["C24"], [(PC, """                        # find block uncertainty data
                        indices = [(i1, i2, i3) for i1, i2, i3 in zip(HData.idx['n_sensor'],
                                                                      HData.idx['n_mu'],
                                                                      HData.idx['n_cov'])]
                        im = indices.index((n_sensor, n_mu, n_cov))
                        block_unc = HData.unc[im]

                        # a. random correlation""", """                        block_unc = self._block_unc(HData, n_sensor, n_mu, n_cov)

                        # a. random correlation"""), (PC, """    def get_f(self, a, *args):""", """    def _block_unc(self, HData, n_sensor, n_mu, n_cov):
        labels = zip(HData.idx['n_sensor'], HData.idx['n_mu'], HData.idx['n_cov'])
        for label, unc in zip(labels, HData.unc):
            if label == (n_sensor, n_mu, n_cov):
                return unc

    def get_f(self, a, *args):""")]),
 "gn-syserr": (["C25"], [(GN, """            n_uSs = [unc_i.uS_i if (unc_i.typeID == 2) or (unc_i.typeID == 4) else 0 for unc_i in self.HData.unc]
            systematic_error_sensors = [self.HData.idx['sensors'][self.HData.idx['n_sensor'][n_uSs.index(i)]]
                                               for i in range(1, n_uS+1)]
""", """            owner = {}
            for unc_i, n_sensor_i in zip(self.HData.unc, self.HData.idx['n_sensor']):
                if unc_i.typeID in (2, 4) and unc_i.uS_i not in owner:
                    owner[unc_i.uS_i] = self.HData.idx['sensors'][n_sensor_i]
            systematic_error_sensors = [owner[i] for i in range(1, n_uS+1)]
""")]),
 "gn-step-helper": (["C25"], [(GN, """            # Update parameter estimates, as well as residuals, cost and gradient
            self.xyza += d
            residuals = self.calc_f(self.xyza, self.HData)
            cost = norm(residuals)**2
            gradient = 2 * self.get_JPTx(residuals)
""", """            # Update parameter estimates, as well as residuals, cost and gradient
            residuals, cost, gradient = self._move(d)
"""), (GN, """    def get_JPx(self, x):
        \"\"\"""", """    def _move(self, d):
        self.xyza += d
        residuals = self.calc_f(self.xyza, self.HData)
        return residuals, norm(residuals)**2, 2 * self.get_JPTx(residuals)

    def get_JPx(self, x):
        \"\"\"""")]),
 "gn-residuals-object": (["C25"], [(GN, """        MatchUpRes.values = residuals[:N_var]
        MatchUpRes.ks = residuals[N_var:]
        MatchUpRes = self.Transform2NormIndOp.reverse(MatchUpRes)
""", """        MatchUpRes.ks = residuals[-N_mu:]
        MatchUpRes.values = residuals[:-N_mu]
        MatchUpRes = self.Transform2NormIndOp.reverse(MatchUpRes)
""")]),
 "sd-append": (["C29"], [(MU, """        for key in ('parameter_sensor', 'sensor_model_constant_sensor'):
            self._original_idx[key] = list(self.idx[key])
""", """        self._original_idx.update((key, self.idx[key][:]) for key in ('parameter_sensor', 'sensor_model_constant_sensor'))
""")]),
 "eiv-order": (["C30"], [(EIV, """        if save_directory_GNOp is not None:
            GNOp.save(save_directory_GNOp)

        if save_gn is not None:
            GNOp.save(save_gn)

        return HarmonisationOutput""", """        for directory in (save_gn, save_directory_GNOp):
            if directory is not None:
                GNOp.save(directory)

        return HarmonisationOutput""")]),
 "eiv-result-tuple": (["C30"], [(EIV, """        HarmonisationOutput.parameter, HarmonisationOutput.parameter_covariance_matrix, \\
            HarmonisationOutput.cost, HarmonisationOutput.cost_dof, \\
                HarmonisationOutput.cost_p_value, HarmonisationOutput.values_res,\\
                    HarmonisationOutput.ks_res, systematic_errors, systematic_error_sensors \\
                        = GNOp.run(show=(show == 2), return_covariance=return_covariance)
""", """        solution = GNOp.run(show=(show == 2), return_covariance=return_covariance)
        names = ('parameter', 'parameter_covariance_matrix', 'cost', 'cost_dof', 'cost_p_value', 'values_res', 'ks_res')
        for name, value in zip(names, solution):
            setattr(HarmonisationOutput, name, value)
        systematic_errors, systematic_error_sensors = solution[7:]
""")]),
 "op-attributes": (["C30"], [(HO, """        fname_output = "_".join(["harm"] + [cfg[key] for key in ('software', 'version', 'tag', 'job_id',
                                                                 'matchup_dataset') if key in cfg]) + ".nc"
""", """        parts = ["harm"]
        for key in ('software', 'version', 'tag', 'job_id', 'matchup_dataset'):
            if key in cfg:
                parts.append(cfg[key])
        fname_output = "_".join(parts) + ".nc"
""")]),
 "sd-extract": (["C29"], [(RD, """                sensor_model_parameter += sensor_data[sensor]["sensor_model_parameter"]
                sensor_model_parameter_sensor += [sensor for a in sensor_data[sensor]["sensor_model_parameter"]]
""", """                own = sensor_data[sensor]["sensor_model_parameter"]
                sensor_model_parameter.extend(own)
                sensor_model_parameter_sensor.extend([sensor] * len(own))
"""), (RD, """            if "sensor_adjustment_model" in sensor_data[sensor].keys():
                adjustment_model.append(sensor_data[sensor]["sensor_adjustment_model"])
            else:
                adjustment_model.append(self._default_adjustment_model)
""", """            adjustment_model.append(sensor_data[sensor].get("sensor_adjustment_model", self._default_adjustment_model))
""")]),

 "av-positions": (["C31"], [(AV, """    X1 = H[valid_averages, :m1]
    Ur1 = Ur[valid_averages, :m1]
    Us1 = Us[valid_averages, :m1]
    X2 = H[valid_averages, 5:5+m2]
    Ur2 = Ur[valid_averages, 5:5+m2]
    Us2 = Us[valid_averages, 5:5+m2]
""", """    chosen = where(valid_averages)[0]
    X1, Ur1, Us1 = [array_[chosen][:, :m1] for array_ in (H, Ur, Us)]
    X2, Ur2, Us2 = [array_[chosen][:, 5:5+m2] for array_ in (H, Ur, Us)]
""")]),
 "av-zero": (["C31"], [(AV, """    Us1[:, :] = 0.0
    Us2[:, :] = 0.0
""", """    Us1 = Us1 * 0.0
    Us2 = 0.0 * Us2
""")]),
 "av-combine": (["C31"], [(AV, """    for i, u_type in enumerate(uncertainty_type2):
        if u_type == 3:
            w_matrix = w_matrices[w_matrix_use2[i]-1]
            u_matrix = uncertainty_vectors[uncertainty_vector_use2[i]-1]
            Ur2[:, i] = w_matrix.dot(u_matrix)
""", """    for i in [j for j, u_type in enumerate(uncertainty_type2) if u_type == 3]:
        Ur2[:, i] = w_matrices[w_matrix_use2[i]-1].dot(uncertainty_vectors[uncertainty_vector_use2[i]-1])
""")]),
 "av-names": (["C31"], [(AV, """    for old_name, new_name in zip(old_names, new_names):
        if old_name in additional_variables.keys():
            additional_variables_new[new_name] = {'data': additional_variables[old_name]['data'][valid_averages],
                                                  "Description": additional_variables[old_name]['Description'],
                                                  "dim": additional_variables[old_name]['dim'],
                                                  "dtype": additional_variables[old_name]['dtype']}
""", """    renamed = dict(zip(old_names, new_names))
    for old_name, variable in sorted(additional_variables.items()):
        if old_name not in renamed:
            continue
        entry = dict(variable)
        entry['data'] = variable['data'][valid_averages]
        additional_variables_new[renamed[old_name]] = entry
""")]),
 "av-inline": (["C31"], [(AV, """    w_matrices = [w_C_S_sensor_2]
    uncertainty_vectors = [uncertainty_vector_S_sensor_2, uncertainty_vector_ICT_sensor_2]
""", """    w_matrices, uncertainty_vectors = [], []
"""), (AV, """        w_matrices = [w_C_S_sensor_1, w_C_S_sensor_2]
        uncertainty_vectors = [uncertainty_vector_S_sensor_1, uncertainty_vector_ICT_sensor_1,
                               uncertainty_vector_S_sensor_2, uncertainty_vector_ICT_sensor_2]
""", """        w_matrices.append(w_C_S_sensor_1)
        uncertainty_vectors.extend([uncertainty_vector_S_sensor_1, uncertainty_vector_ICT_sensor_1])

    w_matrices.append(w_C_S_sensor_2)
    uncertainty_vectors.extend([uncertainty_vector_S_sensor_2, uncertainty_vector_ICT_sensor_2])
""")]),
 "mw-table": (["C31"], [(MWT, """    if sensor_2_instrument == "AMSUB":
        Ur2[:, 0:9] = 0
    elif sensor_2_instrument == "MHS":
        Ur2[:, 0:7] = 0
""", """    averaged = {"AMSUB": 9, "MHS": 7}
    for column in range(averaged[sensor_2_instrument]):
        Ur2[:, column] = 0
"""), (MWT, """    if sensor_1_instrument == "AMSUB":
        Ur1[:, :9] = 0
    elif sensor_1_instrument == "MHS":
        Ur1[:, :7] = 0
""", """    if sensor_1_instrument in averaged:
        Ur1[:, :averaged[sensor_1_instrument]] = 0
""")]),
 "mw-vectors": (["C31"], [(MWT, """    u_matrix22 = ones(len(u_matrix20)) * uR2[2]
""", """    u_matrix22 = uR2[2] * ones(w_matrix2.shape[1])
""")]),
 "pmh-slices": (["C31"], [(PM, """        X2 = H[i_start:i_end, nX:2*nX]
""", """        rows = slice(i_start, i_end)
        X2 = H[rows][:, nX:2*nX]
"""), (PM, """        K = H[i_start:i_end, -1]
""", """        K = H[rows, 2*nX]
"""), (PM, """        time = arange(i_start, i_end)
""", """        time = i_start + arange(n_mu)
""")]),
 "pmh-lines": (["C31"], [(PM, """    with open(path) as data_uncs:
        for i_tot, l in enumerate(data_uncs):
            pass
""", """    with open(path) as data_uncs:
        lines = data_uncs.readlines()
    i_tot = len(lines) - 1
"""), (PM, """    with open(path) as data_uncs:
        for i, line in enumerate(data_uncs):
            if (i == 0)""", """    if True:
        for i, line in enumerate(lines):
            if (i == 0)""")]),
 "pmh-uncertainty": (["C31"], [(PM, """        for j, u in enumerate(uR):
            if (uncertainty_type[j] == 1) or (uncertainty_type[j] == 2):
                Ur2[:, j] = u
        for j, u in enumerate(uS):
            Us2[:, j] = u
""", """        for j in range(nX):
            Us2[:, j] = uS[j]
            if uncertainty_type[j] != 3:
                Ur2[:, j] = uR[j]
""")]),

 "lsmr-inplace": (["C27"], [(KL, "            x          = x + (zeta/(rho*rhobar))*hbar\n", "            step       = zeta/(rho*rhobar)\n            x         += step*hbar\n"),
   (KL, "            h          = v - (thetanew/rho)*h\n", "            h         *= -(thetanew/rho)\n            h         += v\n")]),
 "lsmr-for": (["C27"], [(KL, "        while itn < itnlim:\n            itn = itn + 1\n\n            # Perform", "        while True:\n            if itn >= itnlim: break\n            itn += 1\n\n            # Perform"),
   (KL, "            normr         = sqrt(d + (betad - taud)**2 + betadd*betadd)\n", "            rest          = betad - taud\n            normr         = sqrt(rest*rest + betadd**2 + d)\n"),
   (KL, "            test1   = normr /normb\n", "            test1   = normr *(1.0/normb)\n")]),
 "lsmr-reasons": (["C27"], [(KL, "            if  test3 <= ctol:  istop = 3\n            if  test2 <= atol:  istop = 2\n            if  test1 <= rtol:  istop = 1\n",
   "            if test1 <= rtol:\n                istop = 1\n            elif test2 <= atol:\n                istop = 2\n            elif test3 <= ctol:\n                istop = 3\n")]),
 "lsmr-helper": (["C27"], [(KL, "            ctildeold, stildeold, rhotildeold = symOrtho(rhodold, thetabar)\n            thetatilde    = stildeold* rhobar\n            rhodold       =   ctildeold* rhobar\n            betad         = - stildeold*betad + ctildeold*betahat\n",
   "            rhotildeold, thetatilde, rhodold, betad = self._tilde(rhodold, thetabar, rhobar, betad, betahat)\n"),
   (KL, "    def solve(self, b,", "    @staticmethod\n    def _tilde(rhod, thetabar, rhobar, betad, betahat):\n        c, s, r = symOrtho(rhod, thetabar)\n        return r, s*rhobar, c*rhobar, c*betahat - s*betad\n\n    def solve(self, b,")]),
 "minres-order": (["C27"], [(KM, "                w1    = w2.copy()\n                w2    = w.copy()\n                w     = (v - oldeps*w1 - delta*w2) * denom\n", "                w1, w2 = w2, w\n                w     = (v - delta*w2 - oldeps*w1) / gamma\n"),
   (KM, "                delta  = cs * dbar  +  sn * alfa  # delta1 = 0         deltak\n                gbar   = sn * dbar  -  cs * alfa  # gbar 1 = alfa1     gbar k\n", "                gbar, delta = sn*dbar - cs*alfa, sn*alfa + cs*dbar\n")]),
 "minres-lanczos": (["C27"], [(KM, "                y    = (- alfa/beta)*r2 + y\n                r1   = r2.copy()\n                r2   = y.copy()\n", "                y    = y - alfa*v\n                r1, r2 = r2, y.copy()\n"),
   (KM, "        self.converged = istop in [1,2,3,4,10]\n", "        self.converged = 1 <= istop <= 4 or istop == 10\n")]),
}
