S = "; bounded run-time evaluation of the same contracts cross-checks the trusted models"
PROOF = {"C04": "All obligations discharged for any number of matrices and vectors of any sizes; floats treated as reals, models of numpy, scipy and netCDF4 trusted.",
         "C20": "All obligations discharged for any number of match-ups and window widths.",
         "C21": "All obligations discharged for every instrument and channel, scalars and arrays of any length; real arithmetic, exp and log by their contracts."}
PROOF["C27"] = "All obligations discharged for every operator, right-hand side, tolerance and any number of iterations (loop invariants), in exact real arithmetic and without damping, preconditioner or shift (as the Gauss-Newton algorithm calls them); MINRES for positive definite operators. That rounding does not spoil the accuracy is exercised at run time only."
PROOF["C30"] = "All obligations discharged for every combination of options and whatever data the stages return (the stages through their contracts); HarmonisationOp's unreachable legacy methods are not covered."
for _i, _n in PROOF.items(): CL[_i] = ("proof", _n, S)
for _i in ("C13", "C14", "C15"): CL[_i] = CL[_i][:2] + (S,)
for _i in list(range(1, 13)) + list(range(16, 27)) + [29, 31]:
    if "C%02d" % _i in PROOF: continue
    CL["C%02d" % _i] = ("other", "Every obligation of the functions listed in the evidence is discharged for all lengths, sizes and contents (no bound on them), for each of the structures (pairing graphs, numbers of "
                        "variables) the evidence enumerates: bounded in that respect. Real arithmetic; models of numpy, scipy and netCDF4 trusted. Random real-code runs of the same contracts add larger structures (bounded).", S)
