"""Source of properties.jsonl: `python3 tools/properties_src.py > properties.jsonl`."""
import json

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (pid, len(title))
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


MODEL, MEASURE, GRID, FIT = "bfit/model.py", "bfit/measure.py", "bfit/grid.py", "bfit/fit.py"
GREEDY, DENS, SLATER, UGBS = "bfit/greedy.py", "bfit/density.py", "bfit/_slater.py", "bfit/parse_ugbs.py"

prop("C01", "Atomic model value is the documented sum of s- and p-type Gaussians",
     "For any number of points, any dimension, any centre and any non-empty combination of s-type and p-type counts, evaluating the atomic Gaussian model returns at every point sum c_i exp(-a_i r^2) over the s-type functions plus sum d_j r^2 exp(-b_j r^2) over the p-type functions, r being the Euclidean distance of the point to the centre (the origin when none is given); with normalisation on every s-term is multiplied by (a/pi)^1.5 and every p-term by (2/3) b^2.5/pi^1.5. "
     "The coefficients and exponents are read as all s-type entries followed by all p-type entries. "
     "The value depends only on the arguments and the current counts: earlier evaluations, or changing the counts and changing them back, leave no trace.",
     ["inputs", "configurations", "histories"],
     "all point sets (1-D and N x D), centres, counts (num_s, num_p) != (0,0), coefficients, exponents, both normalisation settings, and all earlier evaluate/change-count calls",
     "tests evaluate a few fixed models (at most a handful of functions on one grid); the formula is claimed for every count, size, dimension and call history",
     [MODEL], [("AtomicGaussianDensity.__init__ (radii)", MODEL), ("AtomicGaussianDensity.evaluate/_eval_s/_eval_p", MODEL), ("change_numb_s_and_numb_p", MODEL)],
     ["return value of AtomicGaussianDensity.evaluate", "radii property"],
     [("ns, np", "current numbers of s- and p-type functions", MODEL), ("_radii", "distance of each point to the centre", MODEL)])

prop("C02", "Atomic model gradient columns are the exact partial derivatives",
     "When derivatives are requested, the atomic Gaussian model returns the same value as without them together with a matrix of 2n columns, n being the number of functions. "
     "Column k < n is the exact partial derivative of the value with respect to coefficient k and column n+k the exact partial derivative with respect to exponent k, in the order s-type then p-type, for every point, every combination of counts, and both normalisation settings.",
     ["inputs", "configurations"],
     "all points, counts, coefficients, positive exponents (any exponents without normalisation), normalisation on/off",
     "tests compare with finite differences for a few models; exactness of every column for every count is a statement over all inputs",
     [MODEL], [("AtomicGaussianDensity.evaluate(deriv=True)/_eval_s/_eval_p", MODEL)],
     ["tuple returned by AtomicGaussianDensity.evaluate(deriv=True)"])

prop("C03", "Molecular model is the superposition of its atoms, block by block",
     "For any number of centres with any per-centre counts of s- and p-type functions, the molecular model's value is the sum over centres of that centre's atomic model evaluated on its own consecutive block of coefficients and exponents, and the derivative matrix places each centre's coefficient (exponent) derivatives in that same block of the first (second) half of the columns. "
     "The radii rows are the distances to each centre, the total count is the sum of the per-centre counts, the prefactor list is the concatenation of the per-centre lists, and looking up the centre of function j returns the unique centre whose block contains j (indices past the end are refused).",
     ["inputs", "configurations"],
     "all numbers of centres, all per-centre (s,p) counts (each non-zero in total), all coordinates, coefficients, exponents, both normalisation settings",
     "tests use one to three centres with fixed counts; block offsets and centre look-up are claimed for every list of counts",
     [MODEL], [("MolecularGaussianDensity.__init__/evaluate/assign_basis_to_center/prefactor/nbasis", MODEL)],
     ["MolecularGaussianDensity.evaluate, radii, nbasis, prefactor, assign_basis_to_center"])

prop("C04", "Normalised basis functions integrate to one; update factors match <r^2>",
     "With normalisation on, every single s-type and p-type basis function of the model integrates to exactly one over three-dimensional space for every positive exponent. "
     "The per-function update factor published by the model (1.5 for s-type, 2.5 for p-type, in the order of the parameters) equals the exponent times the function's mean squared radius, so that an exponent is a fixed point exactly when the mean squared radius of its function agrees with the weighted data.",
     ["inputs", "configurations"],
     "all positive exponents, all counts of s- and p-type functions, atomic and molecular models",
     "tests integrate a few functions numerically on one grid with a tolerance",
     [MODEL], [("_eval_s/_eval_p normalisation factors", MODEL), ("prefactor property", MODEL)],
     ["AtomicGaussianDensity.evaluate(normalize=True)", "prefactor"])

prop("C05", "Kullback-Leibler integrand and derivative are exact, masked and finite",
     "For every non-negative density and every model array of the same length with no negative entry, the Kullback-Leibler measure returns at each point f ln(f/g), with the value 0 where f is 0 and where g is at most the mask value the ratio f/g is replaced by 1; the derivative is the negative of that ratio, so that it is the derivative of the value with respect to g wherever g is above the mask. "
     "If any model entry is negative, value and derivative are arrays of the configured penalty value at every point. "
     "Every returned number is finite.",
     ["inputs", "configurations"],
     "all non-negative densities including zeros, all models including zeros, entries at/below/above the mask and negative entries, all non-negative mask values, derivative on/off",
     "tests use strictly positive densities and a few mask patterns",
     [MEASURE], [("KLDivergence.evaluate", MEASURE)], ["return value of KLDivergence.evaluate"])

prop("C06", "Squared-difference integrand and derivative are exact",
     "For every density and model array of equal length, the least-squares measure returns (f-g)^2 at each point, and its derivative with respect to the model is -2(f-g); the value is non-negative and zero only where f equals g.",
     ["inputs"], "all pairs of equal-length arrays, derivative on/off",
     "tests check fixed arrays", [MEASURE], [("SquaredDifference.evaluate", MEASURE)], ["return value of SquaredDifference.evaluate"])

prop("C07", "Tsallis integrand and derivative are exact and follow the masking rule",
     "For every order alpha > 0 other than one, every positive density (also zero entries when alpha > 1) and every model array of the same length, the Tsallis measure returns f((f/g)^(alpha-1) - 1)/(alpha-1) with derivative -(f/g)^alpha wherever g exceeds the mask value, and the derivative is the exact derivative of the value with respect to g there. "
     "Where g is at most the mask value and alpha > 1 the ratio f/g is replaced by 0, so the value is -f/(alpha-1) and the derivative is 0. "
     "Negative orders and orders equal to one are refused.",
     ["inputs", "configurations"], "all alpha > 0 (alpha != 1), all positive densities, all models, all non-negative mask values",
     "tests only use alpha close to one on fixed arrays",
     [MEASURE], [("TsallisDivergence.__init__/evaluate", MEASURE)], ["return value of TsallisDivergence.evaluate"])

prop("C08", "Divergences obey Gibbs' inequality and vanish only at equality",
     "Wherever the model exceeds the mask value, the Kullback-Leibler integrand is at least f - g at every point, so that its integral over any grid with non-negative weights is at least the difference of the two integrals and hence non-negative when these agree; it equals f - g only where f equals g. "
     "The squared difference is always non-negative, and for alpha > 1 the Tsallis integrand is at least the Kullback-Leibler integrand.",
     ["inputs", "configurations"], "all non-negative densities, all models above the mask, all grids with non-negative weights, all alpha > 1",
     "an inequality over all inputs; tests evaluate a few arrays and do not test it",
     [MEASURE, GRID], [("KLDivergence.evaluate, TsallisDivergence.evaluate, SquaredDifference.evaluate", MEASURE)], ["return values of the measures"])

prop("C09", "Radial grids contain exactly the documented points in ascending order",
     "A uniform radial grid with n points on [a, b] has points a + i(b-a)/(n-1) for i = 0..n-1 (just a when n is one). "
     "A Clenshaw grid for atomic number Z holds, sorted ascending, the core points (1 - cos(pi p/(2m)))/(2Z) for p = 0..m-1 (p = 1..m when the origin is excluded), the diffuse points 25(1 - cos(pi p/(2n))) for p = 1..n, and any extra points, nothing else and nothing lost.",
     ["inputs", "configurations"], "all numbers of points, bounds a<b, atomic numbers, counts including zero, origin on/off, any extra points",
     "tests check a few hand-written grids", [GRID], [("UniformRadialGrid.__init__", GRID), ("ClenshawRadialGrid.__init__/_get_points", GRID)], ["points property", "len()"])

prop("C10", "Radial integration is the trapezoidal rule and is linear",
     "Integrating values y on a radial grid with points x returns sum (y_k + y_{k+1})(x_{k+1} - x_k)/2: it is linear in y, exact for affine integrands, and non-negative for non-negative values on ascending points. "
     "A value array whose shape differs from the points is refused rather than broadcast.",
     ["inputs", "configurations"], "all ascending point arrays of any length, all value arrays",
     "tests integrate a few smooth functions with tolerances", [GRID], [("_BaseRadialGrid.integrate", GRID)], ["return value of integrate"])

prop("C11", "Cubic grid points, weights and integral tile the documented parallelepiped",
     "A cubic grid with origin o, axis vectors a_0,a_1,a_2 and shape (n_0,n_1,n_2) has exactly the points o + i a_0 + j a_1 + k a_2, stored so that k runs fastest and i slowest, every weight equals |det(a_0,a_1,a_2)|, and the integral of y is the sum of the weights times y. "
     "Hence the weights add up to the volume of the grid, the integral is linear, and arrays of another shape are refused.",
     ["inputs", "configurations"], "all origins, all axes (including skewed, rotated and left-handed), all shapes with positive entries, all value arrays",
     "tests use an axis-aligned grid of one shape", [GRID], [("CubicGrid.__init__/_choose_weight_scheme/_calculate_volume/integrate", GRID)], ["points", "integrate", "len()"])

prop("C12", "Grid built from a molecule surrounds every atom by the requested margin",
     "For any molecule, spacing and extension, the cubic grid built from it has mutually orthogonal axes of length equal to the spacing, and every atom lies inside the box tiled by the grid cells at a distance of at least the extension from each face, whether or not the grid is rotated to the principal axes. "
     "The number of points along each axis is the smallest one for which the box can do so, i.e. ceil((largest - smallest projected coordinate + 2 extension)/spacing).",
     ["inputs", "configurations"], "all numbers of atoms, positive charges, coordinates, positive spacings, non-negative extensions, rotate on/off",
     "no test calls the constructor from a molecule at all", [GRID], [("CubicGrid.from_molecule", GRID)], ["points, axes of CubicGrid.from_molecule"])

prop("C13", "Fit integration and goodness-of-fit numbers are what they are documented to be",
     "Every fitting object integrates f as the grid integral of f, or of 4 pi r^2 f when spherical integration is on. "
     "Its goodness-of-fit report is, in order, the integral of the model, the integral of |f - g|, the maximum of |f - g|, the integral of (f - g)^2 and the integral of the masked Kullback-Leibler integrand, all for the model evaluated at the given parameters, and the target integral is the given one or else the integral of the density.",
     ["inputs", "configurations"], "all grids, densities, models, parameters, spherical on/off, target given or not",
     "tests compare a few fitted models with tolerances", [FIT], [("_BaseFit.__init__/integrate/goodness_of_fit", FIT)], ["integrate, goodness_of_fit, integral_dens"])

prop("C14", "Fixed-point update follows the KL equations, conserves charge, keeps positivity",
     "One fixed-point step multiplies coefficient i by the integral of (f/g) b_i divided by the Lagrange multiplier, and sets exponent i to its prefactor times the integral of (f/g) b_i' over the integral of (f/g) b_i' r_i^2, where b_i' is the derivative of the model with respect to coefficient i and r_i the distance to that function's own centre; a parameter group that is not optimised is returned unchanged. "
     "If the model lies above the mask on the whole grid, the new coefficients sum to exactly the target integral whatever the old ones were. "
     "With a model that is nowhere negative these rules hold with the ratio f/g replaced by 1 at points where the model does not exceed the mask. With positive coefficients, exponents, density and weights all updated parameters are positive, provided some grid point lies off the centre of each function.",
     ["inputs", "configurations"], "all grids with non-negative weights, densities, atomic and molecular models, parameters, both masks and targets",
     "tests compare one step with hand formulas for one or two functions", [FIT], [("KLDivergenceFPI.__init__/_update_params", FIT)], ["KLDivergenceFPI._update_params result", "coefficients after one iteration of run"])

prop("C15", "A coefficient-only fixed-point step never increases the KL divergence",
     "For a positive density, positive coefficients that sum to the target integral, non-negative integration weights and models that lie above the mask on the whole grid before and after, replacing the coefficients by one fixed-point step with the exponents frozen never increases the integrated Kullback-Leibler divergence, and leaves it unchanged only if the coefficients did not change.",
     ["inputs", "histories"], "all densities, normalised bases, weights, positive coefficients, any number of functions and of earlier steps",
     "monotonicity over every input and iteration; tests only look at final results of a few fits",
     [FIT, MEASURE], [("KLDivergenceFPI._update_params(update_coeffs only)", FIT), ("KLDivergence.evaluate", MEASURE)], ["goodness_of_fit(...)[-1] before/after a step"])

prop("C16", "Fixed-point run records its iterates truthfully and reports success honestly",
     "A fixed-point run applies the update repeatedly from the initial guess; entry k of the recorded objective and performance lists is the report for the parameters after step k+1, the returned parameters are those of the last recorded step (the initial guess if no step was taken), and a parameter group that is not optimised is returned as given. "
     "It stops at the first step after which the objective changed by at most its threshold, or both parameter changes are at most their thresholds, or the iteration limit is reached. "
     "It never reports success when the limit was exhausted with the objective still changing by more than its threshold (or after fewer than two steps with changing parameters), nor when the returned parameters or objective are not finite.",
     ["inputs", "configurations", "histories"], "all initial guesses, thresholds, iteration limits (including 0 and 1), all update trajectories",
     "tests run a few fits to convergence; stopping and reporting must be right for every trajectory",
     [FIT], [("KLDivergenceFPI.run", FIT)], ["dictionary returned by KLDivergenceFPI.run"])

prop("C17", "Optimiser objective, gradient and constraint belong to the same problem",
     "In all three modes (both groups free, exponents fixed, coefficients fixed) the objective handed to the optimiser is the integral of the pointwise weights times the measure between the density and the model at the given parameters, and its gradient is, for each free parameter in the order of the parameter vector, the integral of the weights times the measure's pointwise derivative times the model's derivative with respect to that parameter - which is the exact derivative of the objective wherever no point is masked. "
     "The constraint is the target integral minus the integral of the model at the same parameters.",
     ["inputs", "configurations"], "all grids, weights, measures, models, parameter vectors, three modes, spherical on/off",
     "tests compare with finite differences for one or two functions", [FIT], [("ScipyFit.func/const_norm/evaluate_model", FIT)], ["ScipyFit.func, const_norm, evaluate_model"])

prop("C18", "Optimiser run poses the requested problem and unpacks the answer correctly",
     "A run hands the optimiser the initial free parameters in order (coefficients then exponents when both are free), positive lower and no upper bounds for each of them, the chosen method, tolerance and iteration limit, and exactly one equality constraint on the integral when requested and none otherwise, for every combination of method, mode and constraint. "
     "The returned coefficients and exponents are the optimiser's vector split at the number of functions, a fixed group is returned as given, and the objective value, success flag, message and performance report are those of exactly these parameters; asking to optimise nothing is refused.",
     ["inputs", "configurations"], "all initial guesses, numbers of functions, methods, modes, constraint on/off, every possible optimiser answer",
     "tests run a few fits; combinations such as trust-constr with a constraint and a fixed group are never run",
     [FIT], [("ScipyFit.run", FIT)], ["arguments passed to the optimiser", "dictionary returned by ScipyFit.run"])

prop("C19", "Greedy candidates extend the current set exactly as each strategy documents",
     "Given n exponents and coefficients, pick-one proposes exactly n+1 candidates in order: one inserting e_0/factor in front, one inserting the midpoint between each pair of neighbours, one appending e_{n-1}*factor, each with the new coefficient at the same position. "
     "Pick-two proposes the candidates obtained by applying pick-one twice with the second insertion at or after the first, and pick-two-lose-one every pick-two candidate with each single function removed; every candidate lists all coefficients and then as many exponents, and every old function not removed keeps its coefficient next to its exponent.",
     ["inputs"], "all numbers of functions, exponents, coefficients, factors and fill-in values",
     "tests compare hand-written lists for up to three functions", [GREEDY], [("get_next_choices, get_two_next_choices, pick_two_lose_one", GREEDY)], ["returned candidate lists"])

prop("C20", "Merging redundant functions keeps every distinct exponent and all the charge",
     "Removing redundancies preserves the sum of the coefficients, returns equally many coefficients and exponents, and returns the input unchanged when no two exponents are closer than the threshold. "
     "The returned exponents are a subsequence of the given ones no two of which are closer than the threshold, and each removed function lies within the threshold of one returned function, which receives its coefficient exactly once.",
     ["inputs"], "all coefficient and exponent arrays, including chains of near-equal exponents, and thresholds",
     "tests use isolated pairs; chains of similar exponents are never tested", [GREEDY], [("remove_redundancies", GREEDY)], ["returned arrays"])

prop("C21", "Greedy fit stays in budget, never worsens, and returns a consistent model",
     "Each round of a greedy run continues from the candidate whose preliminary optimisation has the lowest objective. The run never returns more functions than the given maximum, and the recorded best objective never increases from one accepted set of functions to the next. "
     "The returned coefficients, exponents and counts agree with each other, with the last recorded parameters and with the model left behind, the returned objective is that of the returned parameters, and there is exactly one performance record per accepted set; running again on the same object starts afresh. "
     "A set with a parameter that is not finite is never accepted after the start.",
     ["inputs", "configurations", "histories"], "all densities, strategies, maxima >= 1, factors, thresholds, and every possible outcome of the inner optimisations",
     "tests run pick-one with a maximum of two functions", [GREEDY], [("GreedyStrategy.run/_find_best_lparams/_split_parameters/store_errors", GREEDY)], ["dictionary returned by run", "model counts after run"],
     [("num_s, num_p", "current counts of the greedy object", GREEDY), ("err_arr", "performance records", GREEDY)])

prop("C22", "Greedy starting functions solve their one-function problems",
     "The Kullback-Leibler start has the target integral as coefficient and 3N/(2*4 pi*integral r^4 f) as exponent; for spherical integration and the density's own integral as target this is the stationary one-function solution, which a fixed-point step leaves unchanged. "
     "The least-squares start solves the weighted linear regression of ln f on r^2 for the weights 1, f and f^2 and returns the candidate (c, a) of smallest objective; in particular, on data that is exactly c exp(-a r^2) it returns c and a.",
     ["inputs"], "all positive densities and grids with at least two distinct radii",
     "tests fit single Gaussians with two or three parameter values", [GREEDY], [("GreedyKLFPI.get_best_one_function_solution, GreedyLeastSquares._solve_one_function_weight/get_best_one_function_solution", GREEDY)], ["returned start parameters"])

prop("C23", "Slater radial functions, their derivatives and their norm are exact",
     "For every exponent, principal quantum number and radius, the radial Slater function is (2a)^n sqrt(2a/(2n)!) r^(n-1) exp(-a r), with rows for points and columns for functions, and it is normalised: the integral of its square times r^2 over all radii is one. "
     "The derivative array is its exact derivative with respect to r away from the nucleus and zero within 1e-10 of it.",
     ["inputs"], "all positive exponents, all quantum numbers n >= 1, all non-negative radii (including zero), any numbers of points and functions",
     "tests evaluate a few functions", [DENS], [("SlaterAtoms.radial_slater_orbital/derivative_radial_slater_type_orbital", DENS)], ["returned arrays"])

prop("C24", "Atomic densities add up: total = core + valence, HOMO fully valence",
     "For every element, charge state and radius, the total density is the occupation-weighted sum of squared orbitals over 4 pi, each orbital being the coefficient-weighted sum of the Slater functions of its own angular momentum, with the orbitals in the listed order. "
     "The valence density weights orbital i by exp(-(e_i - e_homo)^2) with e_homo the highest orbital energy of the atom and the core density by one minus that, so core and valence add up to the total at every point and all three are non-negative.",
     ["inputs", "configurations"], "all elements and ions (any number of orbitals and basis functions), all radii",
     "tests sum integrals for a few elements; atoms whose highest orbital is not listed last are not tested",
     [DENS], [("SlaterAtoms.phi_matrix/atomic_density", DENS)], ["atomic_density(mode=...)", "phi_matrix"])

prop("C25", "Density derivative and kinetic energy density follow from the same orbitals",
     "The derivative density is the exact radial derivative of the total density at every radius beyond 1e-10. "
     "The kinetic energy density is, at every such radius, the occupation-weighted sum of (R'^2 + l(l+1) R^2/r^2)/2 over 4 pi with l the angular momentum of each orbital (0 to 3), and is non-negative everywhere, with the 1/r^2 term dropped at the nucleus.",
     ["inputs", "configurations"], "all elements and ions, all non-negative radii",
     "tests compare a few elements numerically", [DENS], [("SlaterAtoms.derivative_density/positive_definite_kinetic_energy", DENS)], ["derivative_density, positive_definite_kinetic_energy"])

prop("C26", "Slater data files are read completely and self-consistently",
     "Loading an element returns what its data file says: every orbital with its own energy and coefficient column, each coefficient list as long as the exponent list of its angular momentum, quantum numbers matching the labels, and occupations that match the electron configuration and add up to the number of electrons. "
     "Requests for charge states that have no data are refused, and so is the caesium cation (its file is not in the format of the heavy atoms).",
     ["inputs", "configurations"], "all shipped elements and charge states (neutral, anion, cation)",
     "tests hand-check three or four files of about two hundred and fifty", [SLATER], [("load_slater_wfn and its helpers", SLATER)], ["dictionary returned by the loader", "SlaterAtoms properties"])

prop("C27", "UGBS look-up returns exactly the listed exponents of that element",
     "For every element in the shipped basis-set file, the look-up returns for each shell S, P, D, F exactly the exponents listed for that element and shell, in file order, whatever the letter case of the request, and empty lists for an element that is not listed.",
     ["inputs"], "all elements in the file, any letter case",
     "the function has no test", [UGBS], [("get_ugbs_exponents", UGBS)], ["returned dictionary"])

prop("C28", "No evaluation or fit modifies the arrays or objects it was given",
     "Evaluating a model, a measure, a grid integral, an atomic density or a goodness-of-fit report, generating greedy candidates, merging redundancies, taking a fixed-point step and running a fit leave every array passed in (points, coordinates, density, parameters, weights) unchanged. "
     "Results do not share memory with the caller's parameter arrays that a later in-place change of the result could corrupt, except where a parameter group that is not optimised (or not iterated) is handed back as given.",
     ["inputs", "histories"], "all inputs of every public evaluation, candidate and fitting entry point",
     "tests compare results, not the arguments after the call",
     [MODEL, MEASURE, GRID, FIT, GREEDY, DENS], [("evaluate/integrate/run functions", MODEL), ("get_next_choices/remove_redundancies", GREEDY)], ["argument arrays before and after each call"])

prop("C29", "Malformed input is refused instead of being silently broadcast",
     "Models, measures, grids and fits refuse with an exception: parameter arrays that are not one-dimensional or whose length is not the number of functions, model and density arrays of different shapes, value arrays (integrands, densities, weights of a fit) whose shape is not that of the grid points, a centre or coordinates of a dimension other than that of the points, negative densities, initial guesses of the wrong shape (also when their lengths add up), a density or model on different points than the grid, zero or a negative number of functions, and unknown modes, methods, strategies or charge states. "
     "Well-formed input is never refused.",
     ["inputs", "configurations"], "all shapes and sizes of the arguments of the public entry points",
     "tests try a few bad shapes", [MODEL, MEASURE, GRID, FIT, GREEDY, DENS], [("argument checks", MODEL), ("argument checks", FIT)], ["exceptions raised"])

if __name__ == "__main__":
    for d in P:
        print(json.dumps(d))
