"""Hand-written parts of DESIGN.md; gen_design.py adds the measured tables."""
HEAD = r'''# Contract-based deductive verification of FIDUCEO/Harmonisation

This document says, for each property of `properties.jsonl`, how it is decided, what is assumed, and what the checks catch.
It is written by `tools_dev/gen_design.py` from the hand-written text in `tools_dev/design_text.py`, the contracts' own
docstrings and the evidence of the last run.

## 1. The verifier (`/verif/pyvc`)

No deductive verifier for Python is installed (Frama-C here has no WP, Verus/Kani/CBMC are for other languages; a hand translation
to Dafny/Why3-like input would be a model, and those tools are absent anyway), so `/verif/pyvc` is one, of the
symbolic-execution-with-contracts kind (as VeriFast or Viper's Silicon):

* **The code is the real code.**  On every run the functions are read from `/repo`'s working tree, translated Python 2 -> 3 by
  lib2to3 (mechanical; the same translation `/opt/vp/build.sh` applies), and *instrumented*, also mechanically: `for`/`while`,
  comprehensions, `and`/`or`/`not`, comparison chains, `print`, attribute and item stores go through hooks.  Nothing is
  hand-copied.  Cython sources (`cython_lib_GN_algo.pyx`, `cython_lib_sample2ind.pyx`) go through `pyvc/cyx.py`, which drops
  exactly: `cimport`, `ctypedef`, `cdef` type declarations (declarations with an initialiser keep the assignment), argument
  types and `nogil`/decorator directives.  C integer wrap-around and buffer dtype coercion are thereby not seen (assumption).
* **Values are symbolic.**  Arrays have symbolic length and contents (`arr.py`: a store of writes over an uninterpreted or
  computed base); scalars are terms (`terms.py`).  numpy, netCDF4, scipy.sparse, os, datetime are replaced by *contract models*
  (`npmodel.py`, `contracts/nc_common.py`, class docstrings); a call that no model covers raises `Unsupported` and the harness is
  reported as not discharged (never silently passed).
* **Branches** on symbolic conditions are decided by the provers under the path condition, or split (path exploration).
* **Obligations**: every array index in bounds, every shape equation of an elementwise operation or slice store, every
  division's denominator, every exception reached, every callee precondition, every postcondition, every invariant.
  A postcondition over an array is stated at an arbitrary (fresh symbolic) row.
* **Callers are checked against callee contracts** where the evidence lists `uses_contracts_of` (sensor models, adjustment
  models, inner solvers LSMR/MINRES, `get_sample_idxs`, `return_valid_averages_mask`, the rolling-average generator, the pool...);
  the callee's own harness discharges that contract, unless the callee is listed as trusted.
* **Provers**: ring normal form (`poly.py`, exact rationals) for polynomial identities; z3 5.3 for the rest; cvc5 1.1.2 when z3
  answers unknown.  Lemmas used: linearity, splitting and re-indexing of finite sums; a sum over an integer range cut at an
  index; a sum of non-negative terms bounds each of its terms; enumeration/selection facts for `where`, boolean masks,
  `unique`, `sorted`; adjointness of a sparse product with the transposed product.  All substitutions are capture-avoiding.

### Loops
1. A loop over a concrete (structure-fixed) sequence is executed.
2. A loop over a symbolic range whose body writes row k of arrays: *row rule* - the body is run once for a symbolic k; writes must
   be to rows determined by k (distinct for distinct k: an obligation), carried scalars must be prefix sums (offset + sum) or
   constants; the array after the loop is the write at the inverse row.  Two-phase (scan/emit), segment and quotient-segment
   (`a[i*w:(i+1)*w] = ...`) forms of the same rule are recognised.
3. Everything else needs a **declared invariant** (`pyvc.instrument.Declared`): `entry` obligations, `havoc` of the written
   state, the body once at an arbitrary iteration with the invariant assumed, `preserve` obligations, then the invariant
   at exit.  Declared: the Gauss-Newton iteration (C25), greedy selection (C16), list-building loops (C25, C26), checker loops
   (C22), time averaging (C23).

### Verdicts (what raises an alarm)
* **run-time contract evaluation** (`/verif/runtime/<id>.py`): the same pre/postconditions evaluated on the real code under
  CPython and real numpy/netCDF4 for generated inputs; a failing input gives `VIOLATION property=<id> replay=<path>` and the
  replay file re-runs it.  It stands in (bounded, stated so) wherever an obligation is not discharged and cross-checks the
  trusted models; it is never counted as proved.
* **refuted obligation**: the solver's counterexample, *concretely evaluated* (all uninterpreted functions fixed, sums
  unrolled, min/max computed) makes the hypotheses true and the goal false.  Reported with `no-failing-input-found` unless the
  run-time step also finds an input.  Obligations internal to a declared invariant are never reported this way: a rewritten loop
  may legitimately need another invariant.
* an obligation that is neither discharged nor refuted (time-out, solver model that does not survive concrete
  evaluation, `Unsupported` construct) is written to the evidence as *undecided / bounded only*; exit 0 if the run-time
  step finds nothing.

So a behaviour-preserving rewrite can cost proof coverage but cannot raise an alarm unless the postcondition itself is false.

### Standing assumptions (in every evidence file)
Real arithmetic for floats (rounding, overflow, float32 storage are not modelled; run-time cases use tolerances), unbounded
integers, lib2to3 semantics, the models of numpy/netCDF4/scipy/datetime, sensor and adjustment models applied row by row
where used through their contract.  *Structure bounds*: where a property quantifies over "any number of series, sensors or
variables", the deductive step fixes the pairing graph and the numbers of variables (the list is in each section) and leaves
lengths, sizes and contents symbolic; the MANIFEST level of those properties is "other", not "proof".

'''
WHY = {  # what the deciding argument is; docstring of the contract is added
"C01": "The index builders are run on a symbolic set of files per pairing graph; the postcondition is the documented block layout written down independently (`nc_common.Layout`), plus tiling and lengths for symbolic match-up counts.  The opener is checked for directories, lists of directories, lists of files in every listing order.  Tests open one directory of fixed files.",
"C02": "Every element of every opened array equals the file element the layout names, for a symbolic match-up of symbolic counts; optional variables present in all, some or none of the files; fill values; times through the contract of `datetime.fromtimestamp`.",
"C03": "Form, data and systematic number of every block; matrices by the packing contract of C04 with symbolic sizes; `unck` as root sum of squares for an arbitrary match-up.",
"C04": "No structure bound: any number of matrices and vectors of any sizes; the packed arrays are described by prefix sums (segment rule), the reader's slices are shown to be the n-th segment.",
"C05": "Each of the four writers writes into the netCDF model; the postcondition compares every variable element by element, its dimensions, type class and the sensor attributes; reopening composes writer and reader.",
"C06": "Pre: the index structure of Layout.  Post: each accessor returns exactly the slice of the requested block / series (length and arbitrary element); extremes bound every element and are attained; a foreign sensor raises.",
"C07": "Post of `run`: every block divided by its own uncertainty, one zero per systematic error, everything else identical (semantic comparison), argument unmodified (write guard).  Post of `reverse`: per form, with weighting-matrix products as sums over stored entries.  Round trip: composition of the two contracts; for weighted blocks for given sparsity patterns (1-7 rows) with arbitrary positive weights, values and uncertainties.",
"C08": "The three routines are run on the same symbolic state; the results are compared element by element, the compiled one through the mechanical Cython extraction.",
"C09": "`calc_f` against the residual written from the property, for an arbitrary element of each part; sensor and adjustment models by contract (uninterpreted per-row functions).",
"C10": "y.(JPx) and ((JP)'y).x are both expanded to sums over match-ups, variables and matrix entries and compared by normal form; calc_Px separately; symmetry of the normal operator is the lemma y.(Ax)=(A'y).x.",
"C11": "The residual of C09 is differentiated symbolically (derivatives of the uninterpreted models are what the models return) along a symbolic direction and compared with the product, element by element.",
"C12": "Evaluation routines against per-row applications of the models; subsets in any order; propagated uncertainty as a double sum compared in normal form.",
"C13": "Each model is executed on symbolic counts and parameters; the radiance is compared with the documented equation, and every derivative column with the symbolic derivative of the code's own returned term (independent differentiation of the term, not of a copy).",
"C14": "As C13; exp/log by their derivative and monotonicity contracts; Planck positivity and monotonicity as lemmas.",
"C15": "As C14 for every instrument of `MW_consts`; ten wrong derivative columns are known findings, pinned to their present expression so any other change is reported.",
"C16": "`get_sample_idxs` carries a declared invariant over the greedy loop (marked columns = columns of the chosen rows; chosen rows pairwise disjoint); `run` is checked against that contract and random.sample's.  Propagated uncertainties of weighted values: root mean square of the row's own columns.",
"C17": "Block contents as arithmetic progressions between attained extremes; index structure; argument unmodified.",
"C18": "Save into the netCDF model and reopen, for every pairing graph of one to three series and several file listing orders (directory order is arbitrary), with and without state residuals; every element compared under its sensor and series name.",
"C19": "The generator on symbolic times and uncertainties; windows, overlaps, shared rows, no unused column, provenance of every uncertainty; wrappers checked with the generator replaced by its contract.",
"C20": "Arbitrary row of four arrays of symbolic width: the mask is true iff no element is NaN and the temperature condition; per-row dependence follows from the row rule.",
"C21": "exp/log by their inverse contracts; scalars and arrays (arbitrary element) of every instrument and channel.",
"C22": "One harness per defect kind and structure: a valid symbolic file plus one defect at an arbitrary place must be reported; a valid file must not; the enumerated uncertainty-assignment tables are complete for up to 1+2 variables.",
"C23": "time_average: declared invariant over the interval loop with the calendar as an abstract sequence of instants; bin: sums over the selected samples, per number of bins.",
"C24": "Whitening, residuals, Jacobian and covariance against the formula written from the property; shared systematic variables identified by number; `cholesky`/`solve` by contract.  `runPC` carries a declared invariant over its repetitions with the minimiser returning *any* vector; the returned covariance is shown to be the inverse of the normal matrix through the contracts of `qr` and `lstsq`.",
"C25": "The iteration loop carries a declared invariant (state, residuals, cost and residual of the same iterate) with LSMR.solve replaced by *any* vector; verdict equivalence at the exit; reported quantities of the exit state.",
"C26": "Assembly over an abstract element function; workers through the contract of map; stored elements in any directory order, file names parsed symbolically character by character; the element routine against the contract of MINRES.",
"C27": "Vectors are formal linear combinations of directions with symbolic real coefficients; the operator is any linear one with its adjoint.  Each norm the code takes makes a new unit direction, shown orthogonal to all earlier ones (for an arbitrary earlier one).  The loop invariants place every vector of the recurrences: for LSMR A h = A v + alphabar t - alpha u, A't = alphabar v, A hbar = rho rhobar/rhod f, A'f = rhod q, b - A x = (betad - taud) f + betadd t; for MINRES A w = E, A w2 = e, b - A x = phibar q (see the docstrings of `Bidiagonal` and `Tridiagonal`).  From them the reported norms are identities of rational functions with square roots, decided by the ring normal form for all iterations at once.  The rotation enters by its contract, which is proved of the real `symOrtho`.  Each way of setting the stopping reason is an obligation of its own.  Found seven defects: wrong solution left in the object, division by an exactly zero residual, a single-row operator, MINRES running on with NaN after an eigenvector, its operator norm contaminated by the right-hand side, its solution norm from a wrong recurrence; LSMR's condition estimate depending on the operator's scale (a multiple 1e-9 of the identity counted as ill-conditioned).",
"C29": "`extract_sensor_data` over symbolic parameter and constant values for every order of up to four sensors among up to two foreign ones; `setSensorData` three times over; file histories against the contract of the import system; all registered sets.  Level other: the shapes are enumerated.",
"C30": "The stages are abstract: each datum carries what it was made from, each outcome is a distinct symbolic value.  Every combination of the options is one path, so the obligations are decided for all data and all outcomes without a structure bound.  Found seven defects in code no test runs.",
"C31": "The converters run on symbolic files; selection by the mask is an uninterpreted increasing enumeration, so every value written is an application to the position it came from and equality of positions is what is proved.  Matrices, packing, mask and writer stand by their own contracts (C19, C04, C20, C05); text files are token sequences whose numbers are symbolic.  Found ten defects: none of the three converters ran correctly.",
}
TAIL_FIX = r'''
## 4. Defects found in FIDUCEO/Harmonisation

57 genuine defects were repaired in `/repo` (one `fix:` commit each; list with the failing input in `known_findings.json`):
'''
OBS = r'''
### Observed, outside the listed properties (not repaired)
* `calculate_parameter_covariance_matrix` ignores its own `tolU` (the element routine uses its default).
* `HarmonisationOp.run_mc_trial`, `.runPC`, `.calculate_GNOp_initial`, `SampleMatchUp` and the `fullEIVsolver_covariance_*` scripts call interfaces that no longer exist.
* `combine_parameter_covariance_ij` globs: brackets in a directory name act as wildcards.
* `temp2rad` overflows `exp` in floats for temperatures of a few kelvin (radiance 0, not invertible); C21 is over reals.

### Known findings kept (C15)
Ten derivative columns of the microwave model are not the partial derivatives of its brightness temperature; a repair needs the
instrument team's intended parameterisation, so they are listed in `known_findings.json`, each pinned to its present expression.

### Known findings kept (C31)
Three defects of `tools/AVHRR_to_updated_spec.py` (sensor IDs read as masked scalars stop every conversion; 3.7 um files land in the
directories of the other bands; a temperature limit stops with `KeyError: 'BT11'`) have repairs of one line each.  They were committed
and taken back: the file's name ends in `_spec.py`, which counts as a test file, and no commit may change one.  The check passes over
each (the name lookup is given plain integers, the wrong directories are accepted for 3.7 um only, a run with a limit ends at the
`KeyError`) and decides everything else; if the file is repaired the full property is checked without change.

## 5. Decisions and false alarms dealt with
* C16: the uncertainty of a sampled weighted value is checked as root mean square over the row's own contiguous columns only
  (the code's formula for a row with column gaps is not claimed).  `sqrt` is compared through its square.
* C05: float variables may be stored as f4 or f8, times must be f8, labels and counters integer.
* C21 states only elements that are positive numbers; C24 only random and random+systematic variables (the preconditioner runs
  on subsampled data).  C22: a file the checker cannot read and stops with an exception in a *model gap* is not a verdict.
* min/max of symbolic arrays are uninterpreted in proofs (attained bounds) but computed when a counterexample is evaluated.
* Array identity used to be an obligation ("passed through unchanged"); refactors that copy raised false alarms, so arrays are
  compared by shape and arbitrary element.
* A solver counterexample that does not survive concrete evaluation used to count as refuted; it is now *undecided*.
* Refactor corpus (`tools_dev/refactors.py`): behaviour-preserving edits (helper extracted, loops rewritten, statements reordered,
  vectorised, early returns, comprehension <-> loop) of the files under check; all quiet (results in section 6).

## 7. Not applicable
* **C28** (Fortran demonstrator): no deductive verifier for Fortran is installed, and minimisation quality is floating-point convergence.
'''
