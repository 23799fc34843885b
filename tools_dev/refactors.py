"""Edits that keep the behaviour, applied to a scratch copy: every check has to stay quiet.
usage: python3 tools_dev/refactors.py [id ...]"""
import os, shutil, subprocess, sys, tempfile
C = "harmonisation_eiv/harmonisation/core/matchup/"
GN = C + "matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py"
CY = C + "matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/cython_lib_GN_algo.pyx"
RD = C + "matchupIO/MatchUpReader.py"
MM = C + "matchupToolbox/utils/matchup_maths.py"
T2 = C + "matchupProcessing/transform2normind/Transform2NormInd.py"
S2 = C + "matchupProcessing/sample2ind/Sample2Ind.py"
SC = C + "matchupProcessing/sample2ind/cython_lib_sample2ind.pyx"
SM = C + "matchupProcessing/simulate_matchup/SimulateMatchUp.py"
ST = "harmonisation_eiv/harmonisation/core/utils/stats.py"

R = {
 "cnm-loop": (["C01"], [(RD, """        sm = 0
        cNm = [sm]
        for dataset in datasets:
            sm += dataset.dimensions['M'].size
            cNm.append(sm)
        return cNm
""", """        cNm = [0]
        for dataset in datasets:
            cNm.append(cNm[-1] + dataset.dimensions['M'].size)
        return cNm
""")]),
 "sensors-helper": (["C01", "C02"], [(RD, """                if sensor in sensors:
                    pass
                else:
                    sensors.append(sensor)
                    sensor_ms.append(sensor_m)
        return sensors, sensor_ms
""", """                self._note_sensor(sensor, sensor_m, sensors, sensor_ms)
        return sensors, sensor_ms

    @staticmethod
    def _note_sensor(name, m, sensors, sensor_ms):
        if name not in sensors:
            sensors.append(name)
            sensor_ms.append(m)
""")]),
 "values-slice": (["C02"], [(RD, """                    i_start = idx['idx'][block_idx]
                    i_end = idx['idx'][block_idx + 1]
                    values[i_start:i_end] = dataset.variables['X' + str(i_sensor_pair + 1)][:, i_cov]

        return values""", """                    block = slice(idx['idx'][block_idx], idx['idx'][block_idx + 1])
                    columns = dataset.variables['X%d' % (i_sensor_pair + 1)]
                    values[block] = columns[:, i_cov]

        return values""")]),
 "unc-merge": (["C03", "C02"], [(RD, """                        # Open w and u matrix
                        w_matrices[w_matrix_idx] = self._open_w_matrix(dataset, w_j)
                        u_matrices[u_matrix_idx] = self._open_u_matrix(dataset, u_j)

                        unc[block_idx] = Uncertainty(3,""", """                        w = self._open_w_matrix(dataset, w_j)
                        u = self._open_u_matrix(dataset, u_j)
                        u_matrices[u_matrix_idx] = u
                        w_matrices[w_matrix_idx] = w

                        unc[block_idx] = Uncertainty(3,""")]),
 "unck-hypot": (["C03", "C02"], [(RD, """        return [Uncertainty(1, (d.variables['Kr'][:] ** 2 + d.variables['Ks'][:] ** 2) ** 0.5) for d in datasets]""",
 """        unck = []
        for d in datasets:
            kr = d.variables['Kr'][:]
            ks = d.variables['Ks'][:]
            unck.append(Uncertainty(1, (kr*kr + ks*ks)**0.5))
        return unck""")]),
 "open-w": (["C03", "C04"], [(RD, """        data = dataset.variables["w_matrix_val"][i_nnz[w_i - 1]:i_nnz[w_i]]
        indices = dataset.variables["w_matrix_col"][i_nnz[w_i - 1]:i_nnz[w_i]]
""", """        first, last = i_nnz[w_i - 1], i_nnz[w_i]
        data = dataset.variables["w_matrix_val"][first:last]
        indices = dataset.variables["w_matrix_col"][first:last]
""")]),
 "calcf-order": (["C09", "C11"], [(GN, """        f[0:N_var] = xyza[0:N_var] - HData.values[0:N_var]
""", """        f[:N_var] = -(HData.values[0:N_var] - xyza[:N_var])
"""), (GN, """            MatchUpEstimate.ks[istart:iend] /= MatchUpEstimate.unck[i].uR

        f[N_var:] = MatchUpEstimate.ks - HData.ks
""", """            u = MatchUpEstimate.unck[i].uR
            f[N_var + istart:N_var + iend] = MatchUpEstimate.ks[istart:iend] / u - HData.ks[istart:iend]
""")]),
 "jpx-sign": (["C10", "C11", "C24"], [(GN, """                s = -1
                if j == 1:
                    s = 1
""", """                s = 1 if j == 1 else -1
"""), (GN, """                                JPx[istart:iend] = JPx[istart:iend] + s * JB * JR[:, n_cov-1] * x[ib:ie] * block_unc.uR / uK
""", """                                JPx[istart:iend] += s * JB * JR[:, n_cov-1] * x[ib:ie] * block_unc.uR / uK
""")]),
 "jpx-coef": (["C10", "C11"], [(GN, """                                # > random component
                                JPx[ib:ie] = JPx[ib:ie] + s*JB*JR[:, n_cov-1]*x[istart:iend]*block_unc.uR/uK
                                # > systematic component
                                JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*block_unc.uS/uK, x[istart:iend])
""", """                                # > common factor
                                g = s*JB*JR[:, n_cov-1]*x[istart:iend]/uK
                                # > systematic component
                                JPx[isys] = JPx[isys] + dot(g, block_unc.uS*ones(len(g)))
                                # > random component
                                JPx[ib:ie] = JPx[ib:ie] + g*block_unc.uR
""")]),
 "px-branch": (["C10", "C11"], [(GN, """        # calculate product
        if not transpose:
            Px = hstack((x[0:N_var], dot(self.S, x[N_var:N_tot])))
            return Px

        if transpose:
            PTx = hstack((x[0:N_var], dot(self.S.T, x[N_var:N_tot])))
            return PTx
""", """        # calculate product
        S = self.S.T if transpose else self.S
        Px = zeros(N_tot)
        Px[:N_var] = x[:N_var]
        Px[N_var:] = dot(S, x[N_var:N_tot])
        return Px
""")]),
 "unconvert-hoist": (["C08", "C10", "C11"], [(GN, """        # get covariate data covariate by covariate
        for n_cov in xrange(1, N_cov + 1):

            # find location of data in xyza
            indices = [(i1, i2, i3) for i1, i2, i3 in zip(idx['n_sensor'], idx['n_mu'], idx['n_cov'])]
            im =""", """        indices = list(zip(idx['n_sensor'], idx['n_mu'], idx['n_cov']))

        # get covariate data covariate by covariate
        for n_cov in xrange(1, N_cov + 1):

            # find location of data in xyza
            im =""")]),
 "cy-row": (["C08"], [(CY, """            Xs[:, n_cov-1] = xyza[ib:ie] * block_unc.uR + xyza[isys] * block_unc.uS
""", """            Xs[:, n_cov-1] = xyza[isys] * block_unc.uS
            Xs[:, n_cov-1] += block_unc.uR * xyza[ib:ie]
""")]),
 "maths-helper": (["C12", "C09"], [(MM, """def evaluate_measurand(""", """def _select(values, owners, sensor_name):
    return [v for owner, v in zip(owners, values) if owner == sensor_name]


def evaluate_measurand("""), (MM, """asarray([a for s, a in zip(MatchUpData.idx['parameter_sensor'], MatchUpData.a) if s == sensor_name], dtype=float32)""",
 """asarray(_select(MatchUpData.a, MatchUpData.idx['parameter_sensor'], sensor_name), dtype=float32)""")]),
 "maths-cumsum": (["C12"], [(MM, """    selection_cNm = [0]
    total = 0
    for m in selection_Nm:
        total += m
        selection_cNm.append(total)

    ####################################################################################################################
    # 2. Determine required measurand""", """    selection_cNm = [sum(selection_Nm[:i]) for i in range(len(selection_Nm) + 1)]

    ####################################################################################################################
    # 2. Determine required measurand""")]),
 "k-columns": (["C12", "C09"], [(MM, """    return adjusted_measurand[:, 1] - adjusted_measurand[:, 0]""", """    first = adjusted_measurand[:, 0]
    K = adjusted_measurand[:, 1].copy()
    K -= first
    return K""")]),
 "t2-ks": (["C06", "C07"], [(T2, """            MatchUpNormInd.ks[istart:iend] = MatchUpData.ks[istart:iend] / MatchUpData.unck[i].uR
""", """            block_ks = MatchUpData.ks[istart:iend].copy()
            block_ks /= MatchUpData.unck[i].uR
            MatchUpNormInd.ks[istart:iend] = block_ks
""")]),
 "t2-reverse": (["C07", "C08", "C09"], [(T2, """                MatchUpData.values[istart:iend] = MatchUpNormInd.values[istart_i:iend_i]*block_unc.uR
                MatchUpData.values[istart:iend] += MatchUpNormInd.values[isys]*block_unc.uS
""", """                independent = MatchUpNormInd.values[istart_i:iend_i]*block_unc.uR
                shared = MatchUpNormInd.values[isys]*block_unc.uS
                MatchUpData.values[istart:iend] = shared + independent
"""), (T2, """                MatchUpData.values[istart:iend] = w.dot(u*MatchUpNormInd.values[istart_i:iend_i])
""", """                independent = MatchUpNormInd.values[istart_i:iend_i] * u
                MatchUpData.values[istart:iend] = w.dot(independent)
""")]),
 "t2-window": (["C07"], [(T2, """                    if row_unencountered_cols_num == n_w:
                        # averaged values
                        for col in row_cols:
                            MatchUpNormInd.values[istart_i+col] = MatchUpData.values[i_values] / u_matrix[col]
                            encountered_cols[col] = True
                        pass

                    elif 0 <""", """                    if row_unencountered_cols_num == 0:
                        continue

                    if row_unencountered_cols_num == n_w:
                        # averaged values
                        for col in row_cols:
                            encountered_cols[col] = True
                            MatchUpNormInd.values[istart_i+col] = MatchUpData.values[i_values] / u_matrix[col]

                    elif 0 <""")]),
 "sample-helper": (["C16"], [(S2, """                for j, s_i in enumerate(s_idx):
                    col_start = w.indices[w.indptr[s_i]]
                    col_end = w.indices[w.indptr[s_i+1]-1]+1
                    MatchUpSample.unc[i].uR[j] = npsum(u[col_start:col_end]**2)**0.5/(col_end-col_start)**0.5
""", """                for j, s_i in enumerate(s_idx):
                    MatchUpSample.unc[i].uR[j] = self._window_uncertainty(w, u, s_i)
"""), (S2, """    def run(self, MatchUpData, sf=1.0""", """    def _window_uncertainty(self, w, u, row):
        col_start = w.indices[w.indptr[row]]
        col_end = w.indices[w.indptr[row+1]-1]+1
        n = col_end - col_start
        return (npsum(u[col_start:col_end]**2)/n)**0.5

    def run(self, MatchUpData, sf=1.0""")]),
 "sample-cy": (["C16"], [(SC, """            if all(col is False for col in prev_sampled_cols):
                independence_test = np.append(independence_test, array([1], dtype=np.int32))
            else:
                independence_test = np.append(independence_test, array([0], dtype=np.int32))
""", """            if any(prev_sampled_cols):
                independence_test = np.append(independence_test, array([0], dtype=np.int32))
            else:
                independence_test = np.append(independence_test, array([1], dtype=np.int32))
""")]),
 "sim-cnm": (["C17"], [(SM, """        cNm = [0]
        total = 0
        for N in simulation_idx['Nm']:
            total += N
            cNm.append(int(total))
""", """        cNm = [0]
        for N in simulation_idx['Nm']:
            cNm.append(int(cNm[-1] + N))
"""), (SM, """        values_sim = linspace(min(values), max(values), n_sim)
        return values_sim""", """        lowest, highest = min(values), max(values)
        return linspace(lowest, highest, n_sim)""")]),
 "stats-where": (["C23"], [(ST, """        ind = np.where((times >= current_time) & (times < next_time))
        vals = data[ind]
""", """        vals = data[(times >= current_time) & (times < next_time)]
""")]),
 "gn-loop": (["C25"], [(GN, """            cost_reduction = cost_previous - cost
            cost_reduction_tol = tol*(1+cost)
            norm_d = norm(d, inf)
""", """            norm_d = norm(d, inf)
            cost_reduction = cost_previous - cost
            cost_reduction_tol = tol + tol*cost
"""), (GN, """        while (conv is False) and (niter < mxiter):""", """        while not conv and niter < mxiter:""")]),
}


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors_b
R.update(refactors_b.R)


def main():
    ids = sys.argv[1:] or list(R)
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    bad = 0
    for i in ids:
        props, edits = R[i]
        d = tempfile.mkdtemp(prefix="refac_")
        try:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
            subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + d, shell=True)
            for path, old, new in edits:
                p = os.path.join(d, path)
                s = open(p, newline="").read()
                crlf = "\r\n" in s
                s = s.replace("\r\n", "\n")
                assert s.count(old) == 1, (i, path, s.count(old))
                s = s.replace(old, new)
                open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
            for pid in props:
                r = subprocess.run(["python3-vt", os.path.join(verif, "check.py"), pid], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=verif, text=True)
                print(i, pid, "exit", r.returncode, flush=True)
                for ln in r.stdout.splitlines():
                    if "obligations," in ln or "VIOLATION" in ln or "bounded only" in ln or "undecided:" in ln or "FAILED" in ln: print("    ", ln[:330], flush=True)
                bad += r.returncode != 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print("alarms:", bad)


if __name__ == "__main__": main()
