p("C01", "Opened blocks partition the value array: one per series, sensor, variable",
  "For any list of match-up files (or directories, taken in file-name order), opening them yields an index structure in which every combination of match-up series, sensor of that series' pair and measurement variable of that sensor owns exactly one block of the value array, blocks are listed by variable, then series, then position in the pair, and consecutive blocks tile the array with no gap or overlap. Each block is exactly as long as its series, the per-series cumulative counts are the running totals of the series lengths, and each distinct sensor is listed once, in order of first appearance, with its own number of variables.",
  ["inputs", "configurations"], "all numbers of series, all sensor pairings (shared sensors, references, differing numbers of variables), all series lengths and file orders",
  "The tests open fixed sets of three or four small files; the block layout is index arithmetic that must be right for every pairing graph, length and variable count.",
  [RD, MU], [("index builders", RD + ":get_idx_*_from_nc_datasets"), ("block lookup", RD + ":get_block_idxs"), ("file list", RD + ":open_nc_datasets")],
  [("idx", "dict of parallel block lists and cumulative offsets", RD + ":get_idx_from_nc_datasets")], ["open_matchup(...).idx"])
p("C02", "Opened match-up data sit at the block of their own series, sensor and variable",
  "After opening any match-up files, every measurement value, adjustment factor, time, scan-line/pixel index and additional variable of match-up i of a file is found at match-up i of that file's own series, under its own sensor and variable, and nothing else is stored there. An index variable absent from one file but present in another is NaN for the former's match-ups, absent from all files it is None; an additional variable missing from a file, or holding the fill value -1e30, is NaN; and times equal the file's whole seconds since 1970.",
  ["inputs", "configurations"], "all file contents, lengths, pairings and combinations of optional variables",
  "The tests compare one fixed file set; a swap between sensors, an off-by-one in a block or a mix-up between optional variables shows only for particular pairings and combinations.",
  [RD], [("values", RD + ":open_values_from_nc_datasets"), ("adjustment factors", RD + ":open_ks_from_nc_datasets"), ("times", RD + ":open_time_from_nc_datasets"), ("indices", RD + ":open_optional_index_from_nc_datasets"), ("additional", RD + ":open_additional_values_from_nc_datasets")],
  None, ["open_matchup(...).values / ks / time1 / additional_values"])
p("C03", "Opened uncertainties keep each block's own form, data and shared systematic",
  "After opening any match-up files, each block's uncertainty has the correlation form labelled in its file for that variable (random, random+systematic, weighted, weighted+systematic) with exactly that variable's random uncertainties, systematic uncertainty and weighting/uncertainty matrices of the same file. Two blocks with a systematic component share one systematic error exactly if they are the same variable of the same sensor, those errors being numbered 1, 2, ... in block order without gaps; and the uncertainty of each adjustment factor is the root sum of squares of its random and structured parts.",
  ["inputs", "configurations"], "all mixes of correlation forms, matrix numberings and sensor pairings over any number of files",
  "The tests cover a few fixed mixes; which blocks share a systematic error or a matrix is a relation over all pairs of blocks.",
  [RD, M + "matchupIO/Uncertainty.py"], [("block uncertainties", RD + ":open_unc_from_nc_datasets"), ("matrix numbering", RD + ":open_matrix_idxs_from_nc_datasets"), ("K uncertainty", RD + ":open_unck_from_nc_datasets")],
  None, ["open_matchup(...).unc / unck"])
p("C04", "Weighting and uncertainty matrices survive packing into a file and reopening",
  "For any lists of non-empty sparse weighting matrices and uncertainty vectors, packing them into the match-up file variables and reading number n back gives a matrix with the same entries and the n-th uncertainty vector, whatever the sizes and fill of the others. The packed variables describe the whole list and nothing more: one counter per matrix or vector, and concatenated entries in order.",
  ["inputs"], "all lists of sparse matrices (rows, columns, numbers of non-zeros) and uncertainty vectors",
  "Tests pack two fixed matrices; the offsets are prefix sums over all preceding matrices.",
  [WR, RD, "tools/W_matrix_functions.py", "tools/pmh2fiduceo.py"], [("packing", WR + ":_return_w_matrix_variables"), ("unpacking", RD + ":_open_w_matrix"), ("unpacking u", RD + ":_open_u_matrix"), ("tool packing", "tools/W_matrix_functions.py:return_w_matrix_variables")],
  None, ["_return_w_matrix_variables", "MatchUp.w_matrices / u_matrices"])
p("C05", "A written match-up file holds exactly the data given, under the right names",
  "For any valid set of match-up arrays, the written file has the dimensions, variables and sensor-name attributes of the match-up format, with every given array stored element for element under its own name and sensor position, including any given weighting matrices and additional variables such as track indices. Opening a file written this way gives back the same values, uncertainties, times, weighting matrices and index structure.",
  ["inputs", "configurations"], "all arrays, correlation forms, optional-argument combinations and numbers of series",
  "Tests write one file per fixed case; 30 near-identical variables for two sensors invite swaps that only distinguishable data reveal.",
  [WR, "tools/W_matrix_functions.py"], [("file writer", WR + ":write_input_file"), ("tool writer", "tools/W_matrix_functions.py:write_input_file")],
  None, ["MatchUpWriter.write_input_file", "write_input_file", "append_W_to_input_file"])
p("C06", "Accessors return exactly the requested series' and sensor's data",
  "For any opened match-up, asking for a variable of a sensor in a series, a sensor's scan-line/pixel indices or times in a series, or an additional variable (of one series or all) returns exactly the stored elements of that request, in order, and the corresponding minimum/maximum queries are the extremes of what the query returns. A sensor that is not in the series' pair is refused with an error rather than answered with another sensor's data.",
  ["inputs", "configurations"], "all index structures, sensors, variables and series, including series where the sensor is second in its pair",
  "The tests query a handful of elements of one fixed data set.",
  [MU], [("variables", MU + ":getVariableData"), ("indices/times", MU + ":getSensorAlongTrackIndex,getSensorAcrossTrackIndex,getSensorTime"), ("additional", MU + ":getAdditionalData")],
  None, ["MatchUp.get*"])
p("C07", "Normalising to independent variables loses nothing and reverses exactly",
  "For any match-up with random or random+systematic blocks, transforming to the independent normalised form divides every value and adjustment factor by its own random uncertainty and appends one zero-initialised variable per distinct systematic error; undoing the transform multiplies back, adds each block its own systematic error times its own systematic uncertainty, and applies weighting matrices to weighted blocks, so that undoing straight after transforming returns the original values (of weighted blocks too, where the weights of each row sum to one and each row uses a variable no earlier row uses, as in moving averages). Everything else (parameters, models, constants, matrices, uncertainties, times and track indices) is passed through unchanged and the input object is not modified.",
  ["inputs", "configurations"], "all index structures, mixes of correlation forms, values, uncertainties and weighting matrices",
  "Tests transform one fixed data set; the block offsets before and after differ for weighted blocks, and shared systematic errors link distant blocks.",
  [T2], [("transform", T2 + ":run"), ("inverse", T2 + ":reverse")], None, ["Transform2NormInd.run / reverse"])
p("C08", "All three de-normalisation routines agree",
  "For any normalised state and any series and sensor, the sensor state variables recovered by the solver's own routine, by its compiled counterpart and by the general inverse transform are the same array: one row per match-up, one column per variable of that sensor, each in original units.",
  ["inputs", "configurations"], "all index structures, correlation forms and states",
  "No stable test runs any of the three against another; they index the same layout independently.",
  [T2, GN, GNX], [("solver", GN + ":unconvert_Xs"), ("compiled", GNX + ":unconvert_Xs"), ("inverse transform", T2 + ":reverse")], None, ["GNAlgo.unconvert_Xs", "Transform2NormInd.reverse"])
p("C09", "Residuals are estimate minus data for every variable and adjustment factor",
  "For any state, the residual vector's first part is, variable by variable, current estimate minus normalised data, and its second part is, match-up by match-up, (adjusted measurand of the second sensor minus that of the first, from the current parameters and de-normalised state, divided by the adjustment factor's own uncertainty) minus the normalised adjustment factor. Computing it changes neither the state nor the data.",
  ["inputs", "configurations"], "all index structures, correlation forms, sensor and adjustment models and states",
  "The numerical solver tests do not run in the stable suite and check only fitted parameters.",
  [GN, MM, T2], [("residuals", GN + ":calc_f"), ("adjustment factors", MM + ":evaluate_K")], None, ["GNAlgo.calc_f"])
p("C10", "Jacobian products: transpose is the exact adjoint, normal matrix symmetric",
  "For any state, preconditioner and vectors x and y, y.(J P x) equals ((J P)^T y).x, where both products are computed matrix-free, and both products are linear in their argument. Consequently the normal-equations operator is symmetric and positive semi-definite, and applying the preconditioner leaves all variables unchanged and multiplies only the parameters by the preconditioner (or its transpose).",
  ["inputs", "configurations"], "all vectors, states, preconditioners, index structures and correlation forms",
  "Adjointness is a statement over all pairs of vectors; no stable test calls these routines.",
  [GN], [("products", GN + ":calc_prod_JPx"), ("preconditioner", GN + ":calc_Px"), ("normal matrix", GN + ":calc_Hx")], None, ["GNAlgo.get_JPx / get_JPTx / calc_Hx"])
p("C11", "The Jacobian product is the derivative of the residuals",
  "For any state and direction, the matrix-free Jacobian product (with identity preconditioner) equals the directional derivative of the residual vector at that state, provided each sensor model returns the true derivatives of its measurand and each adjustment model those of its adjustment. This holds for random, random+systematic, weighted and weighted+systematic blocks, for parameters shared by several series, for sensors with different numbers of variables, and for reference sensors with random uncertainty.",
  ["inputs", "configurations"], "all states, directions, index structures, models and correlation forms",
  "The existing solver tests only look at converged parameters on one simulated set and are not among the stable tests.",
  [GN, T2, MM], [("products", GN + ":calc_prod_JPx"), ("model evaluation", GN + ":calc_R"), ("residuals", GN + ":calc_f")], None, ["GNAlgo.get_JPx vs GNAlgo.calc_f"])
p("C12", "Measurands and adjustment factors are evaluated per match-up from its own data",
  "For any match-up object, the evaluated measurand of each sensor of each series is that sensor's own model applied to its own variables, parameters, constants, track indices and times in that series; the adjusted measurand applies that sensor's adjustment model, the adjustment factor is second minus first, and requested derivatives are those of the same evaluation. Selecting a subset of series returns exactly the rows those series have in the full evaluation, and parameter uncertainty propagated to each measurand is the quadratic form of its parameter derivatives with that sensor's part of the covariance matrix.",
  ["inputs", "configurations"], "all index structures, models, parameter assignments and subsets of series in ascending order",
  "The tests of these functions read data files outside the stable suite and evaluate one configuration.",
  [MM], [("measurand", MM + ":evaluate_measurand"), ("adjusted", MM + ":evaluate_adjusted_measurand"), ("K", MM + ":evaluate_K")], None, ["evaluate_measurand / evaluate_adjusted_measurand / evaluate_K"])
p("C13", "AVHRR calibration models: measurand formula, exact derivatives, common call form",
  "For every AVHRR sensor model (reference, 11/12 um with three or four parameters, 3.7 um with two or three, and their rescaled variants), the radiance returned is the documented calibration equation of its counts and parameters per match-up, and every column of the returned derivative array is the exact partial derivative of that radiance with respect to the corresponding variable or parameter. Every model accepts the same arguments (variables, parameters, constants, across- and along-track indices, times) as the evaluation code passes, and the reference model returns its single variable and no derivatives. The shipped sensor data of each AVHRR channel supply exactly the variables and parameters its model uses.",
  ["inputs"], "all counts, radiances, temperatures and parameters for which the equation is defined, all numbers of match-ups",
  "No test evaluates a sensor model at all points; derivative errors make the fit converge to a wrong optimum without any failure.",
  [AV], [("models", AV + ":sensor_model_*")], None, ["sensor_model_*(...)"])
p("C14", "HIRS calibration model: measurand formula and exact derivatives",
  "For every input the HIRS radiance is offset plus instrument counts calibrated between space and internal target with the Planck radiance of the band-corrected target temperature, emissivity correction and quadratic non-linearity of its calibration equation, and every column of the derivative array is the exact partial derivative of that radiance with respect to the corresponding variable or parameter. The reference model returns its variable for every match-up and no derivatives, and the Planck function is positive and increasing in temperature.",
  ["inputs"], "all counts, temperatures, parameters and channel constants in the physical domain, all numbers of match-ups",
  "The HIRS test does not run in the stable suite and checks one point.",
  [HI], [("model", HI + ":sensor_model_3"), ("Planck function", HI + ":planck")], None, ["sensor_model_3", "sensor_model_ref"])
p("C15", "Microwave calibration model: measurand and exact derivatives",
  "For every input and every instrument the microwave radiance is the two-point calibration between space view and internal target with the Planck radiances of the band-corrected target and cold-space temperatures, plus its quadratic non-linearity term with instrument-temperature-dependent coefficients, and every column of the derivative array is the exact partial derivative of that radiance with respect to the corresponding variable or parameter. The reference model returns its variable for every match-up and no derivatives.",
  ["inputs"], "all counts, temperatures, parameters and instrument constants in the physical domain, all numbers of match-ups",
  "The microwave test does not run in the stable suite and checks one point against recorded output.",
  [MW, H + "sensor_data/MW/MW_consts.py"], [("model", MW + ":sensor_model_3"), ("Planck function", MW + ":planck")], None, ["sensor_model_3"])
p("C16", "Independent subsamples are whole, original, mutually independent match-ups",
  "For any match-up data, the sample's match-ups are distinct match-ups of the original series, with their values, adjustment factors, uncertainties, times and track indices all taken from that same original match-up, and no more than the requested fraction of each series. No two sampled match-ups of a series share an underlying independent variable through any weighting matrix of that series, and the sample's index structure describes its arrays exactly.",
  ["inputs", "configurations", "histories"], "all weighting-matrix sparsity patterns, series, sampling factors and random draws",
  "Independence is a relation over all pairs of sampled match-ups for every sparsity pattern and random draw.",
  [S2I, S2X], [("selection", S2X + ":get_sample_idxs"), ("extraction", S2I + ":run")], None, ["Sample2Ind.run"])
p("C17", "Simulated match-ups fill exactly the input's data range",
  "For any match-up data and sample count, the simulation has that many match-ups in every series, and each block and each series' adjustment factors run in equal steps from the minimum to the maximum of the corresponding input block. Its index structure describes its arrays exactly, and sensors, parameters and models are the input's, which is left unmodified.",
  ["inputs", "configurations"], "all index structures, values and sample counts of at least one",
  "Tests run one data set and one sample count.",
  [SIM], [("structure", SIM + ":return_simulation_idx"), ("data", SIM + ":return_simulation_x,space_fill_sim")], None, ["SimulateMatchUp.run"])
p("C18", "Harmonisation results survive saving and reopening",
  "For any result, saving it and opening the saved files restores the calibration parameters with their sensors and names, the parameter covariance matrix, any reported systematic errors and each series' adjustment-factor and per-sensor residuals, each under its own sensor and series. Nothing is dropped, reordered between sensors or replaced by fill values.",
  ["inputs", "configurations"], "all parameter sets, covariance matrices, series and residual arrays",
  "The tests compare a few fields of one result, and the residual arrays written are not among them.",
  [HR], [("save", HR + ":write_*"), ("open", HR + ":open_*")], None, ["HarmonisationResult.save / open"])
p("C19", "Rolling-average weighting matrices: rows are windows on a shared scan-line axis",
  "For any match-up times, scan-line interval, window size, per-line uncertainties and positive weights, each row of the generated weighting matrix holds exactly the window's weights (uniform weights sum to one) on consecutive columns. Two match-ups n scan lines apart share exactly the window size minus n overlapping columns, shifted by n, when n is less than the window size and none otherwise, match-ups at equal times have identical rows, and no column is unused. The uncertainty vector gives, for every column, an uncertainty that the input supplied for that scan line in some window covering it, and its length equals the number of columns, also in the wrapper for the microwave instruments.",
  ["inputs"], "all time sequences on the scan-line grid (unordered, repeated, with gaps), window sizes and uncertainties",
  "Tests use six short fixed sequences; the layout depends on the whole history of gaps and overlaps.",
  ["tools/generate_w_matrices.py", "tools/pmh2fiduceo.py"], [("generator", "tools/generate_w_matrices.py:generate_rolling_average_w_matrix")], None, ["generate_rolling_average_w_matrix"])
p("C20", "Averages are accepted exactly if both sensors' uncertainty vectors are usable",
  "A match-up is marked valid exactly if no scan line of either sensor's space-view or internal-target uncertainty window is missing (NaN) and, when brightness temperatures and a temperature limit are given, its own brightness temperature is not below the limit. The verdict for one match-up depends only on that match-up's own data and the mask has one entry per match-up.",
  ["inputs"], "all uncertainty windows, patterns of missing scan lines and temperature limits",
  "Two fixed cases are tested.",
  ["tools/AVHRR_to_updated_spec.py"], [("mask", "tools/AVHRR_to_updated_spec.py:return_valid_averages_mask")], None, ["return_valid_averages_mask"])
p("C21", "Brightness temperature and radiance conversions are mutual inverses",
  "For every instrument and infrared channel, converting a positive brightness temperature to radiance and back returns the same temperature, and converting the radiance of a positive temperature to temperature and back returns the same radiance, element by element for arrays of any length and for scalars. Radiance increases strictly with temperature.",
  ["inputs", "configurations"], "all instruments in the coefficient table, all channels, all physical temperatures/radiances",
  "No test exercises the conversion.",
  ["tools/convert_bt_to_radiance.py"], [("forward", "tools/convert_bt_to_radiance.py:temp2rad"), ("inverse", "tools/convert_bt_to_radiance.py:rad2temp")], None, ["convertBT.temp2rad / rad2temp"])
p("C22", "The input checker reports an error exactly for files that break the format",
  "A match-up file that follows the match-up format (variables, dimensions, types, attributes, weighting-matrix variables, value ranges, uncertainty assignment) is reported free of errors. A file in which any one required variable is missing, has a wrong dimension or type, a required attribute is missing, uncertainties are negative, weighting-matrix variables are missing, misshapen or inconsistent (counts, numbering, pairing of weighting and uncertainty matrices, widths, non-positive uncertainties, negative indices), or a variable's uncertainty form is inconsistent with the uncertainties given, is reported with at least one error.",
  ["inputs", "configurations"], "all single deviations from the format at any variable, over both sensors",
  "No test runs the checker.",
  ["tools/harmonisation_input_checker.py"], [("checks", "tools/harmonisation_input_checker.py:check_*")], None, ["check_*(dataset)"])
p("C23", "Time averages and binned statistics assign every sample to its own interval",
  "Each time average is the mean of exactly the samples whose time lies in that calendar hour, day, month or year (start included, end excluded), intervals run without gaps from the one containing the earliest sample to the one containing the latest, and an interval without samples is NaN. Each bin's mean and standard deviation are those of exactly the samples whose coordinate lies in that bin (lower edge included, upper edge excluded except for the last bin), with equal-width bins and reported centres covering the requested range.",
  ["inputs"], "all sample times and values, all interval kinds, bin counts and ranges",
  "Two monthly cases are tested; interval boundaries are measure-zero events a sample misses.",
  [ST], [("time average", ST + ":time_average"), ("bins", ST + ":bin")], None, ["time_average", "bin"])
p("C24", "Preconditioner residuals, Jacobian and covariance factor are consistent",
  "For any state of the preconditioner problem, the residual of each match-up is the adjustment-factor misfit of its current measurands whitened by its own total variance (adjustment factor plus both sensors' propagated random and shared systematic variables), and the Jacobian is that of the measurand difference with respect to the parameters, whitened the same way. Match-ups sharing a sensor's systematic variable are correlated through exactly that variable. The solution returned is the last one the minimiser of these residuals gave, each minimisation starting where the previous one ended, and its covariance is the inverse of the normal matrix of that Jacobian at the returned parameters.",
  ["inputs", "configurations"], "all match-up samples, parameters and uncertainties of random or random+systematic form",
  "The preconditioner tests are not in the stable suite and look only at converged parameters.",
  [PC], [("whitening", PC + ":calc_LK"), ("residuals and Jacobian", PC + ":calc_fJa"), ("solution and covariance", PC + ":runPC")], None, ["PCAlgo.calc_fJa", "PCAlgo.runPC"])
p("C25", "The solver reports one consistent final iterate",
  "Whatever step the inner least-squares solver returns at each iteration, the reported parameters, cost, residuals, systematic errors and convergence verdict all belong to the same last iterate: the cost is the squared norm of that iterate's residuals, the reported residuals are those in original units and the iteration stops as soon as, and only when, the convergence test on cost reduction, step size and gradient holds or the iteration limit is reached. Each reported systematic error is attributed to the sensor whose variable it belongs to.",
  ["inputs", "histories"], "all sequences of steps returned by the inner solver, all data",
  "The loop's bookkeeping over iterations is only exercised on one converging simulated case outside the stable suite.",
  [GN], [("iteration", GN + ":run")], None, ["GNAlgo.run"])
p("C26", "Parameter covariance is assembled element by element, symmetric and in place",
  "For any number of parameters, element (i, j) of the parameter covariance matrix is the one computed for parameters i and j, whether computed in one process, by parallel workers or as separate jobs whose stored elements are combined later. The in-process matrix is symmetric, and combining never mixes up elements however many parameters there are.",
  ["inputs", "schedules"], "all numbers of parameters, all element values and completion orders of the workers",
  "No test combines separately computed elements; index confusion starts at ten parameters.",
  [GN, H + "tools/HarmonisationOp.py"], [("in-process", GN + ":calculate_parameter_covariance_matrix"), ("combination", H + "tools/HarmonisationOp.py:combine_parameter_covariance_ij")], None, ["HarmonisationOp.combine_parameter_covariance_ij"])
KL, KM = [M + "matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_%s.py" % x for x in ("lsmr", "minres")]
p("C27", "Inner Krylov solvers report the truth about the solution they return",
  "For every linear operator, right-hand side, tolerances and iteration limit, what an inner solver (LSMR for least squares, MINRES for a symmetric positive definite operator) reports of the vector it returns is true of that vector, after any number of iterations: the residual norm is the norm of b - Ax, LSMR's second norm that of A'(b - Ax), the length is that of x, the norm of the operator that of its images of the directions built so far, LSMR's condition estimate the ratio of the extremes of the diagonal of its triangular factor. The reason given for stopping is one of the documented ones and the tolerance it names is met by the reported quantities; the iteration limit is respected; the solution is also left in the solver object; the right-hand side is not modified; a zero right-hand side gives x = 0; an exact solution reached early ends the iteration.",
  ["inputs", "histories"], "all operators, right-hand sides, tolerances and limits; any number of iterations; solver objects used again",
  "The two solvers have no test of their own; every claim concerns the state after an arbitrary number of recurrences.",
  [KL, KM], [("least squares", KL + ":LSMRFramework.solve"), ("rotation", KL + ":symOrtho"), ("symmetric", KM + ":Minres.solve")])
p("C28", "The Fortran marginalised-EIV demonstrator minimises the documented cost",
  "For any harmonisation input the Fortran demonstrator's reported parameters minimise its documented cost function and its reported covariance is the inverse curvature there.",
  ["inputs"], "all input files", "One demonstration run is tested.",
  ["harmonisation_meiv_demo"], [("demo", "harmonisation_meiv_demo/")])
p("C29", "Sensor data give every sensor its own model, constants and labelled starting parameters",
  "Whatever the order of sensors in the sensor data, whatever further sensors they describe and however many parameters and constants each has, after sensor data are read with or set on match-up data every sensor of the match-up has its own sensor model and adjustment model (adjusted measurand = measurand with derivative 1 if it names none), and its own starting parameters and constants, in order, are exactly the entries labelled with its name, in the current and in the original index structure. Setting sensor data again replaces them entirely, never changes the sensor data given, and a sensor data file gives its own data whatever files were opened before.",
  ["inputs", "configurations", "histories"], "all sensor data, orders of sensors, numbers of parameters and constants, histories of sensor data files opened or set",
  "Tests read one sensor data file in which the order of the sensors equals that of the match-up.",
  [RD, H + "core/matchup/matchupIO/MatchUp.py", H + "sensor_data/SensorDataFactory.py"], [("extraction", RD + ":extract_sensor_data"), ("set on opened data", H + "core/matchup/matchupIO/MatchUp.py:setSensorData"), ("file", RD + ":open_sensor_data")], None, ["open_matchup(path_sensor_data=)", "MatchUp.setSensorData"])
p("C30", "A harmonisation run gives each stage its own input and reports each outcome under its own name",
  "For every combination of options (preconditioner computed or read, preconditioner saved, solver state computed or read, solver state saved, covariance wanted or not) a harmonisation run solves the preconditioner on the normalised sample of the data given, starts the solver at the preconditioner's parameters with the Cholesky factor of its covariance on the normalised data (or at the solver state read), writes the preconditioner and the final solver state exactly where asked, computes the covariance if asked for, and reports and saves the solver's parameters, covariance, cost, degrees of freedom, p value, residuals and systematic errors each under its own name, laid out as the data were read. A solver state saved and read again continues with the same data, adjustment factors, state and preconditioner.",
  ["configurations", "inputs", "histories"], "all combinations of options, all data and all outcomes of the stages, saved states of any size",
  "No test in the stable suite runs the whole chain; options are never combined.",
  [EIV, H + "tools/HarmonisationOp.py", GN], [("run", EIV + ":run"), ("operator", H + "tools/HarmonisationOp.py:run"), ("state", GN + ":save/open")], None, ["HarmonisationEIV.run", "HarmonisationOp.run", "HarmonisationEIVPC.run", "GNAlgo.save / open"])
p("C31", "Match-up file converters keep every accepted match-up's own data",
  "Converting a file never mixes up match-ups. The AVHRR converter writes six files (channels with and without the orbital temperature as a parameter; with systematic and structured, structured only, and independent uncertainties only), each in its band's directory; each holds exactly the accepted match-ups in order, with every one's own counts, uncertainties (zeroed only where the variant says so), K, times, indices, position and brightness temperatures, both sensors' names, and for each sensor's averaged variables a matrix made from its own times and uncertainties per scan line; without structured effects the averaged variables' random uncertainty is the window mean of those. The microwave converter keeps everything in the file but the uncertainty forms and the averaged variables' random uncertainty, and adds matrices made from each sensor's own times. The converter of simulated text files writes for every series exactly its rows with the declared uncertainties, a matrix row per match-up of that file, and refuses moving averages that differ from one another.",
  ["inputs", "configurations"], "all files of these formats: numbers of match-ups and series, accepted match-ups, contents, bands, instrument pairs",
  "No test runs a converter; every one stopped or mixed data up for ordinary inputs.",
  ["tools/AVHRR_to_updated_spec.py", "tools/MW_add_W_matrices.py", "tools/pmh2fiduceo.py"], [("AVHRR", "tools/AVHRR_to_updated_spec.py:main"), ("microwave", "tools/MW_add_W_matrices.py:run"), ("simulated", "tools/pmh2fiduceo.py:run_conversion")], None, ["tools/AVHRR_to_updated_spec.py main", "tools/MW_add_W_matrices.py run", "tools/pmh2fiduceo.py run_conversion"])
