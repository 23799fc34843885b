"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one readable place)."""
import json, os
H = "harmonisation_eiv/harmonisation/"
M = H + "core/matchup/"
RD = M + "matchupIO/MatchUpReader.py"
WR = M + "matchupIO/MatchUpWriter.py"
MU = M + "matchupIO/MatchUp.py"
T2 = M + "matchupProcessing/transform2normind/Transform2NormInd.py"
GN = M + "matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py"
GNX = M + "matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/cython_lib_GN_algo.pyx"
EIV = M + "matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py"
PC = M + "matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py"
MM = M + "matchupToolbox/utils/matchup_maths.py"
S2I = M + "matchupProcessing/sample2ind/Sample2Ind.py"
S2X = M + "matchupProcessing/sample2ind/cython_lib_sample2ind.pyx"
SIM = M + "matchupProcessing/simulate_matchup/SimulateMatchUp.py"
HR = M + "matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py"
ST = H + "core/utils/stats.py"
AV = H + "sensor_data/AVHRR/AVHRR_sensor_models.py"
HI = H + "sensor_data/HIRS/HIRS_sensor_models.py"
MW = H + "sensor_data/MW/MW_sensor_models.py"
WF = "tools/W_matrix_functions.py"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
exec(open(os.path.join(os.path.dirname(__file__), "props_body.py")).read())
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
