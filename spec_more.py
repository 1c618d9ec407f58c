B = 'package/inference/'
MORE = []


def p(*a, **k):
    MORE.append((a, k))


p('P11', 'A reported minimum belongs to its point and is never worse than the start',
  'Whatever function is minimised, the bracketing, line and multi-dimensional searches return a point together with the '
  'function value at exactly that point; the value is no higher than at the starting point or bracket middle; the 1-d result '
  'lies inside its bracket; and the caller\'s starting point is left as it was.',
  ['inputs'], 'all functions, starting points, directions and tolerances; the first iterations of each search, any order of improvements',
  'on smooth test functions every bookkeeping slip (an fx not updated with x, a discarded best point) is repaired by the next '
  'iteration; only functions with the right ups and downs expose it',
  [('brent/MinBracket/linmin/powell', B + 'utils/nrmin.py')])
p('P12', 'HPD normalisation and probability content are the integrals they claim to be',
  'For a 1-d or 2-d grid of log densities (computed by the caller or by the grid object itself, linear or logarithmic axes), the log '
  'normalisation is the log of the trapezoid-rule integral of the density over the grid, and the fraction above a level is the '
  'integral, over that same total, of the part of each grid cell where the (piecewise linear, along the last axis) density exceeds '
  'the level: 1 for levels below the lowest density, 0 at the peak. On logarithmic axes the density in the logarithm is meant; unknown kinds of axis are refused.',
  ['inputs'], 'all densities and axis limits; every ordering of the grid densities and the level on 1-d grids of 2 and 3 points (4 '
  'thorough), and 2-d grids up to 2x3 (3x3 thorough)',
  'a wrong half-weight or a cell that is skipped changes results by a little on the smooth, well-resolved densities a test uses',
  [('HPD1D/HPD2D.__init__, fracgt', B + 'grid/hpd.py'), ('HPDGrid1D/HPDGrid2D', B + 'grid/hpdgrid.py'),
   ('qgt1d/qgt2d', B + 'grid/_gridquad.f')])
p('P13', 'HPD regions ignore normalisation constants and follow changes of units',
  'Adding a constant to all log densities changes neither the fraction above a relative level, nor the critical relative level, nor the '
  'region boundaries, and shifts the log normalisation and the absolute level by exactly that constant. Rescaling (for linear axes also '
  'shifting) the axes leaves fractions and levels unchanged and carries boundaries and normalisation along. The caller\'s array is not modified.',
  ['inputs'], 'all constants, scales and offsets; all densities on the grids of P12',
  'metamorphic: it relates two runs, for every constant and unit; unit tests compare one run with one number',
  [('HPD1D/HPD2D.__init__, fracgt, critlevel', B + 'grid/hpd.py'), ('HPDGrid1D/HPDGrid2D', B + 'grid/hpdgrid.py'),
   ('xvalues', B + 'grid/_gridquad.f')])
p('P14', 'HPD critical levels, boundaries and records are consistent',
  'The critical level reported for a probability solves "fraction above the level = probability"; there is one boundary for each '
  'crossing of that level by the linearly interpolated log density, in increasing order and located at the crossing; probabilities, relative '
  'levels, absolute levels and boundaries are recorded together, in step, and a request that is refused (two targets at once, more '
  'boundaries than can be stored) records nothing. A target in standard deviations means the probability a (one-dimensional) normal has within as many.',
  ['inputs', 'histories'], 'all densities (no grid value exactly at the level) and probabilities on the grids of P12, 0 to 14 crossings; '
  'the root finder is assumed to return a root of what it is given',
  'bumpy densities with many crossings, boundaries at the grid ends and failures in the middle of a request are not sampled',
  [('HPD1D/HPD2D.critlevel', B + 'grid/hpd.py'), ('HPDGrid1D/HPDGrid2D.critlevel', B + 'grid/hpdgrid.py'), ('xvalues', B + 'grid/_gridquad.f')])
p('P15', 'Steppers and running log-sums are exact',
  'A linear (logarithmic) stepper yields exactly n values, the first and last being the given limits and the others equally spaced (in '
  'constant ratio), enumerated from zero where asked, for limits in either order and any number of steppers in use at once. A running '
  'log-sum reports the number of values added (zeros included), the log of their sum and mean and, when asked, of their sum of '
  'squares and standard deviation, whatever the order and size of the values and when continuing an earlier sum.',
  ['inputs', 'histories'], 'all limits and values; 2 to 5 steps (16 thorough); sums of up to 3 (5) values',
  'results depend on the order and relative size of the values (which branch is taken), and on edge values such as a log of exactly 0',
  [('lin_stepper/lin_enum_stepper/log_stepper/log_enum_stepper/LogSummer', B + 'utils/numutils.py')])
p('P16', 'A bracket returned by the zero search does bracket a zero',
  'When the zero bracketing returns, the function (with the extra arguments given) has opposite signs at the two ends, and the interval contains the '
  'initial one; an interval that is already a bracket is returned as it is; an empty interval and a search that finds no sign change are '
  'refused with an exception, after no more attempts than asked for, none of which bracketed a zero.',
  ['inputs'], 'all functions, intervals in either direction, expansion factors and supplied function values; up to 3 expansions (4 thorough)',
  'the ends and their function values are updated separately; a mismatch shows only when a particular end moves at a particular step',
  [('zbracket', B + 'utils/numutils.py')])
p('P17', 'One-dimensional grid quadratures are the trapezoid sums they claim to be',
  'A 1-d grid (linear or logarithmic steps) evaluates the function once at each of its n points, whose first and last are the given '
  'limits; every point reports its location, the width to the next point (zero for the last) and its own value; the quadrature is the '
  'trapezoid sum of the values, the log quadrature the log of the trapezoid sum of their exponentials, and the moments those of that '
  'normalised integrand, for every selected component, however the values were obtained (point by point or as a vector); a '
  'subgrid has the points, step and values of its part of the grid. Requests for points, components, moments or '
  'subgrids that do not exist are refused.',
  ['inputs'], 'all functions and limits; grids of 2 to 4 points (8 thorough), subgrids of 6-point grids, scalar and tuple values',
  'a wrong end weight or a width taken from the wrong side changes little on the dense grids a test uses',
  [('BasicGrid1D', B + 'grid/grid1d.py')])
p('P18', 'Recorded maxima are complete, sorted and correctly described',
  'Each local maximum of the function on the grid (both ends and flat tops included) is recorded, with its grid point, height, location and '
  'width: those of the Gaussian through the three points around it (exact for a Gaussian), or the documented linear estimate at an end. The list is '
  'in decreasing order of height (or area, when ranking by area), never longer than its limit or wider than its dynamic range, keeps the largest '
  'values that fit, and keeps every label with its value.',
  ['inputs', 'histories'], 'all functions and values: every comparison path for two insertions, representative orderings of up to 6, lists with and '
  'without limits; grids of 3 to 5 points with any values in representative orderings',
  'what is kept depends on the order of arrival, ties with the limits and which end of the list is cut',
  [('LabeledMaxList/PeakParams/IsPeak/BasicGrid1D.stepfunc/vecfunc', B + 'grid/grid1d.py')])
p('P19', 'Refining a grid keeps it contiguous, consistent and dense where asked',
  'After any sequence of refinements the interval list covers exactly the base interval with adjacent intervals, none sampled less densely '
  'than the base; step, size and number of points of each agree; the requested region is sampled at least as densely as requested '
  '(if the base grid resolves it, else with at least as many points as requested); points are numbered consecutively end to end, and locating a point or a '
  'number finds the interval it is in. A refined grid has every point in increasing order with the function value there, is denser around '
  'its maxima as asked, and its quadratures, log quadratures and moments are the trapezoid sums over all its points.',
  ['inputs', 'histories'], 'all interval positions, step sizes and functions on 11-point lists: 23 refinement histories of up to 4 steps each for linear and '
  'log steps, one refinement with arbitrary ends; refined grids with one and two maxima',
  'splitting, resampling and merging depend on how intervals overlap and touch; the cases multiply with each step of a history',
  [('RefinedIntervalList1D/BasicInterval/Grid1D', B + 'grid/grid1d.py')])
p('P20', 'On/off inferences are those of the Poisson model, for scalars and arrays',
  'For counts on and off source: log likelihoods of signal rates differ by exactly the log ratio of the marginal likelihood series (background '
  'integrated out); a cutoff drops only terms smaller than it; the posterior density is the mixture of Poisson terms weighted by the '
  'probabilities that k counts are signal, which are those of the model and add up to one, and pnsig(k) is the k-th of them for every k from 0. An array of rates (of '
  'any number type) gives the values of its elements; rates, data and cached probabilities cannot be changed by using the results; several measurements do not '
  'interfere; a likelihood that cannot be represented and an impossible number of counts are refused with ValueError.',
  ['inputs', 'histories'], 'thirteen combinations of counts (0 to 6) and interval ratio; all time units; signal rates from none to far above the data for the '
  'likelihood, all signal rates for the posterior; cutoffs 0, 1e-5 (default), 0.01, 0.5',
  'the series is summed up and down from its largest term, whose position changes with the rate; edge cases (no counts, no signal, k = 0) are separate branches',
  [('OnOff', B + 'count/onoff.py'), ('slmlike/slmliked/sigctp/psigc', B + 'count/_cbmlike.f')])
p('P21', 'Backups precede replacement; stores return what was last assigned and saved',
  'Opening or saving over a file first moves the existing version to a backup and the backup to a second one, so that the two versions before the latest '
  'are always kept, none of the versions to be kept is missing at any moment in between, and nothing else is touched. A store (of arrays, or of any values) '
  'saved and loaded again, by short or full name, has the same names and values: those never accessed since loading, those changed in place, and '
  'new ones superseding old; contents() lists each name once; attributes that do not exist raise AttributeError, values that cannot be stored and saving without a name '
  'are refused and leave nothing behind; a store is not affected by what is done to another. Columns read from a file are the converted entries, in order.',
  ['inputs', 'histories', 'crash_points'], 'all 8 combinations of existing versions, sequences of 6 saves, an interruption after any file operation; stores '
  'under all combinations of short/full name at creation, loading and saving and 5 access patterns between; all array values',
  'what is lost depends on which files exist, on which attributes were touched before saving and on where an interruption strikes',
  [('backup/safe_open/ArrayStore/AttrStore/read_column_vectors', B + 'utils/ioutils.py')])
p('P22', 'Restoring a saved random number generator state repeats the same draws',
  'After saving the generator state and any further draws, restoring it (from the default or a named file, as often as wanted) returns the generator to '
  'exactly the state at saving, so all later draws are repeated, Gaussian ones included. Saving does not disturb the generator and keeps the two previous '
  'states in their backup files; restoring without a state file leaves the generator as it is and saves its state; a '
  'state of another kind of generator is refused and changes nothing.',
  ['inputs', 'histories', 'crash_points'], 'all generator states; after 0, 1 and 2 draws; five saves in sequence, interruption after any file operation',
  'part of the state (a pending Gaussian) exists only after an odd number of draws, and tests that only compare seeds or uniform draws cannot see it',
  [('save_rng/restore_rng', B + 'utils/rng.py')])
p('P23', 'Observed information is exact for quadratics and touches nothing it is given',
  'The observed information matrix of a log likelihood that is quadratic about its maximum is exactly its (negative) matrix of second derivatives, '
  'with zero error estimate, for any step sizes and any number of refinements; one refinement removes quartic terms; without refinement it is the plain second difference. '
  'It does not depend on an additive constant. Steps for a given fall of the log likelihood lead, along each parameter and in the direction of the '
  'guess, to a point where it has fallen by that much within the tolerance; too many iterations and a point that is not a maximum are reported by exceptions. The estimates and '
  'guesses given are never modified, not even when the search or the likelihood itself fails; an inference asked for its information matrix is left at its mode in any case.',
  ['inputs', 'fault_sequences'], 'all quadratic log likelihoods in 1 to 3 parameters, 0 to 3 refinements; quartic ones in 1 and 2; arbitrary functions without refinement; '
  'representative search histories (1 to 3 iterations) at any location; an exception at any of the first evaluations',
  'whether arguments survive shows only on failure paths; error in the off-diagonal terms is hidden where correlations are weak',
  [('dllsteps/obsinfo', B + 'deriv/obsinfo.py'), ('BayesianInference.obs_info', B + 'pie/bayes.py'), ('pk_scales/ninfol/rid_ex', B + 'deriv/_obsinfo.f')])
p('P24', 'Two-dimensional cubature rules have the degree and region they state',
  'Each rule evaluates the integrand at the stated number of points, is linear in it, and integrates every monomial up to its stated degree exactly: over the unit '
  'square, over the plane with weight exp(-r^2), or with the density of a normal distribution. For any rectangle, or any centre and '
  'scales of the normal, the result is the affine image of the basic rule, and the shared rule tables are not modified. Unknown rules and other dimensions are refused.',
  ['inputs', 'configurations'], 'all 11 tabulated rules of the plane and 5 rules of the square, all monomials up to their degree; all rectangles, centres and scales, arbitrary integrands',
  'a wrong digit or angle in one of several hundred constants leaves low-order moments right; tests check a few of them for one rule',
  [('rules and integrators', B + 'integrate/cub2d.py'), ('tables', B + 'integrate/_cub2d_auto.py')])
p('P25', 'Adaptive cubature passes on what it is asked and reports every failure',
  'The adaptive integrators hand the region, integrand, accuracy and limits they are given unchanged to the compiled algorithm, with integer sizes and at least the '
  'working space its documentation requires for the dimension, rule and limits in use; a success returns the estimate, its error and the number of evaluations; every '
  'failure the algorithm can report, and every dimension or rule it does not have, becomes an exception (naming the limit to raise where there is one) and never a result.',
  ['inputs', 'configurations', 'fault_sequences'], 'scalar: dimensions 2, 3, 5 and 9 with default and other limits; vector: 13 combinations of dimension, number of functions and rule '
  'with 4 sets of limits each; all regions and accuracies; all outcome codes',
  'failure codes cannot be provoked at will; too little working space shows only in difficult integrals',
  [('adapt/adapt_sizes', B + 'integrate/adapt.py'), ('adapt_vec', B + 'integrate/adapt_vec.py')])
p('P26', 'Marginal statistics of linear models always belong to the parameters asked for',
  'For models linear in their amplitudes, the quadratic form, sufficient statistic and Jacobian returned, and the amplitudes, residuals and covariance asked for afterwards, '
  'are those of the standardised basis functions and data at the nonlinear parameters given last, whatever was computed before (results for the same parameters are reused, never '
  'those for others), with one sigma or one per datum, with or without a setup function, from functions or from an object. Q is always the sum of squared standardised data less the '
  'sufficient statistic; a calculation that fails leaves the previous results intact; several analyses do not interfere; sigmas given twice or not at all, and a covariance asked for too early, are refused.',
  ['inputs', 'histories'], 'all data, sigmas, basis functions and parameters; 2 basis functions, 3 data; a history visiting every order of the queries',
  'stale memoised results appear only in particular sequences of calls with changing parameters',
  [('BA/BAObj', B + 'gauss/vecba.py')])
p('P27', 'Contour plots show the given function, levels and positions',
  'Whatever the index order of the array, every value is drawn at its own x and y, each contour at the level given for it (absolute '
  'levels, or probabilities converted as for a bivariate normal; by default those of 1 to 6 standard deviations), in its own colour, in '
  'increasing order as the plotting library requires. An image, drawn when asked for, covers the same grid with white at the peak; the cursor shows the value '
  'of the nearest grid point and none outside the grid; cross hairs span the plot. Grids of fit results and of densities are drawn against their own axes. '
  'Arguments are not modified, and what cannot be drawn (unknown index order, logarithmic axes) is refused before anything is drawn.',
  ['inputs', 'configurations'], 'all function values, levels and linearly spaced axes; grids of 3x2 and 2x4, any peak position, up to 6 levels; '
  'the plotting library is represented by a contract that records what it is given',
  'pictures are not compared by tests; a transposed array or levels in the wrong order look plausible for symmetric test functions',
  [('plot_bivar', B + 'utils/plot_bivar.py'), ('ScalarGrid.plot', B + 'pie/containers.py'), ('HPDGrid1D/HPDGrid2D.plot', B + 'grid/hpdgrid.py')])
p('P28', 'Piecewise linear densities are normalised and samples follow them',
  'A density given by its values at increasing abscissas (or their logarithms; values not above the optional relative cutoff count as zero) is proportional to the linear interpolation '
  'of those values, integrates to one, is zero outside the domain and, on uniform grids, is defined everywhere in it, both ends included. Samples are exactly the inverse of its cumulative distribution: each uniform '
  'deviate is mapped to the point below which the density has that content, so that segments without content are never sampled and every sample lies within the abscissas. '
  'Neither the given arrays nor the density are changed by evaluating or sampling.',
  ['inputs', 'configurations'], 'all abscissas, values and deviates; 2 to 6 abscissas, 24 patterns of zero, negligible and positive values, rising, level and falling, with default and other cutoffs',
  'a slip in one of the cases (rising, falling, level, zero segment) leaves a distribution that looks right in any histogram a test can afford',
  [('PWLinear', B + 'mc/pwlinear.py')])
p('P29', 'Population samples are the items drawn, with the generator kept in step',
  'Populations hand the sampler exactly the weights given (all equal when none are), and return the items, in the order drawn, whose indices the sampler drew; subsets of a fixed '
  'size are drawn only with tables prepared for that very size from the sorted weights, whatever sizes and methods were used before, and refuse sizes that cannot be drawn. Every draw starts '
  'from the state the global generator is in and leaves the generator where the draw ended, so that nothing is drawn twice and saving the state saves everything. Populations of '
  'numbers keep values, weights, cumulative weights and hazards together under sorting. Arguments are not modified.',
  ['inputs', 'histories'], 'all items and weights; populations of up to 5 items; histories mixing draws with and without replacement of several sizes; the compiled sampler is represented by a contract that records what it is given',
  'a table left over from another sample size, or a generator state not handed back, gives samples that look random but have the wrong distribution or repeat',
  [('Population/Population1D', B + 'mc/population.py')])
p('P30', 'An inference covers every parameter and predictor its classes declare',
  'The parameters and predictors of an inference are those declared by its signal model and predictor set classes (any number of them), by the classes these derive from, and by the inference class itself: each is listed exactly once, in order of '
  'declaration (parameters of the predictors after those of the model, those of the inference class itself last), however the declarations are laid out, documented or named, with or without available source code, for every instance, for '
  'classes derived from an inference, and without one class or instance affecting another. Saving, restoring and the fit statistic therefore cover all of them. A name declared both by the model and by the predictor set is refused.',
  ['configurations', 'histories'], 'ten layouts of models (up to three parameters, with and without derivation), four of predictor sets, four of the inference class, ten with several predictor sets or declarations in the inference class; with and without source code; several instances of each',
  'the lists are assembled when an instance is made, from classes written by the user; a parameter that is left out silently keeps its value when others are restored',
  [('Inference.__init__', B + 'pie/inference_base.py'), ('metaAutoName', B + 'pie/autoname.py'), ('Param._report_name', B + 'pie/param.py'), ('Predictor._report_name', B + 'pie/predictor.py')])
