"""Writes properties.jsonl and MANIFEST.json (run by hand: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REP = 'proadv/filtration/replacement/replacements.py'
DET = 'proadv/filtration/detection/'
STA = 'proadv/statistics/'
NONE = 'The repository has no test of this code at all; '
TREE = 'bounded exhaustive enumeration (explicit-state) of the real code against an independent reference model'

P = []


def p(pid, title, statement, over, quant, why, files, mech, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note))


p('P01', 'Despiking replacements touch only the flagged samples',
  'Every spike-replacement method returns a new series of the same length in which each sample that was not flagged is identical to the input (for the methods that round their output: identical to the input rounded to the requested number of decimals). '
  'The series and the flag list passed by the caller are never modified and the result never shares memory with them; an empty flag list yields the (rounded) input.',
  ['inputs'], 'every series, every flag set, every replacement method', NONE + 'which samples are touched depends on the flag pattern (first/last sample, runs, neighbours of window borders), a space of 2^n masks per series.',
  [REP], [('all replacement functions', REP)], TREE,
  'every series over 4 values up to 4 (5) samples x every flag subset x 12 method instances; structured masks on 65..4099 samples; 19 signal shapes')
p('P02', 'Last-valid-data replacement holds the most recent valid sample',
  'Each flagged sample takes the value of the nearest unflagged sample before it, and of the first unflagged sample of the record when there is none before it. This holds for runs of any length and for flags given in any order, with repetitions, and as any integer container.',
  ['inputs'], 'every series, flag set and presentation of the flags', NONE + 'errors show only for flags at index 0, long runs, or unsorted/duplicated flags.',
  [REP], [('last_valid_data', REP)], TREE, 'every series over 4 values up to 6 (7) samples x every subset (300 k cases); every run/pair/comb on 24; sizes to 10007')
p('P03', 'Mean and median replacement use the statistic of the whole component',
  'Mean (median) replacement sets every flagged sample to the mean (median) of the complete input series, flagged samples included, and nothing else. The result does not depend on the order or repetition of the flags.',
  ['inputs'], 'every series and flag set', NONE + 'the statistic must be taken over the input before any sample is replaced, for every flag order.',
  [REP, STA + 'descriptive.py'], [('mean_value', REP), ('median_value', REP)], TREE, 'every series over 4 values up to 6 (7) samples x every subset; sizes to 10007')
p('P04', 'Linear-interpolation replacement lies on the line between valid neighbours',
  'Each flagged sample lies on the straight line through the nearest unflagged sample before and the nearest one after it, rounded to the requested decimals; a run that touches the start or the end of the record takes the mean of the non-missing samples of the input. '
  'Flags may be unsorted, repeated or empty, and flagged samples may already be missing values.',
  ['inputs'], 'every series, flag set, number of decimals', NONE + 'interpolation weights depend on the run structure and on both record ends.',
  [REP], [('linear_interpolation', REP)], TREE, 'every series over 4 values up to 6 (7) samples x every subset; decimals 0..8; NaN subsets; masks on 24 (48); sizes to 10007')
p('P05', 'Twelve-point cubic replacement uses twelve valid points on each side',
  'A flagged sample after index 30 and before the last 30 samples of the record is replaced by the cubic spline through the 12 positions before it (already repaired where they were flagged) and the next 12 unflagged samples after it, so a cubic signal is restored; nearer the ends, or with fewer than 12 valid samples following, it takes the linear interpolation. '
  'Results are rounded to the requested decimals, and flags outside the record or data that is not one-dimensional are refused with a value error.',
  ['inputs'], 'every series of any length, flag set, decimals', NONE + 'the window must skip flagged samples after the spike and use repaired ones before it: depends on the distance between spikes.',
  [REP], [('cubic_12points_polynomial', REP)], TREE, 'every single position for 12 lengths around 60, every interior run <= 15 with every second spike within 13 samples, cubic signals, masks, sizes to 4099')
p('P06', 'Polynomial replacement extrapolates the preceding window',
  'Sample 0 takes the mean of the record, flagged samples 1 to 10 take the linear interpolation, and every later flagged sample takes the prediction of the least-squares polynomial of the requested degree fitted to the preceding window (the whole preceding record while fewer samples precede it), with earlier flagged samples already repaired. Results are rounded to the requested decimals.',
  ['inputs'], 'every series, flag set, window, degree, decimals', NONE + 'the window borders (10/11, window-1/window/window+1) and the use of repaired samples only show for particular positions.',
  [REP], [('polynomial_replacement', REP), ('_create_model', REP)], TREE, 'every position, every run, every pair, every subset around the borders, window x degree grid, sizes to 1000 (4099)')
p('P07', 'Smoother-based replacements put the smoothed value at the spike',
  'Replacement by simple moving average, exponential moving average, weighted moving average, singular spectrum analysis or Kalman filter sets each flagged sample to the value the same smoother assigns to that position of the input series, and refuses the parameters the smoother refuses. (For the weighted moving average the value belonging to a position is the average of the period samples preceding it.)',
  ['inputs'], 'every series, flag set and smoother parameter', NONE + 'alignment between the smoothed series and the flag positions must hold for every position and every window.',
  [REP, STA + 'series.py'], [('simple_moving_average, exponential_moving_average, weighted_moving_average, ssa, kalman_filter', REP)], TREE,
  'every series over 3 values up to 4 (5) x every subset x every window/factor; sizes to 1000 (4099). The weighted moving average is misaligned: listed in known_findings.txt')
p('P08', 'Acceleration thresholding flags exactly the double exceedances',
  'In positive mode a sample is flagged exactly when the acceleration from its predecessor exceeds the gravity multiple and the sample exceeds mean plus k standard deviations; in negative mode exactly when both fall below the mirrored thresholds (the first sample has zero acceleration). Indices are increasing and within the record, and any other mode is refused with a value error.',
  ['inputs', 'configurations'], 'every series, sampling rate, direction and threshold factors', NONE + 'strictness, signs and the conjunction only show at particular combinations of the two conditions.',
  [DET + 'acceleration.py', STA + 'spread.py'], [('acceleration_thresholding', DET + 'acceleration.py')], TREE, 'every series over 4 values up to 6 (7) samples x 2 directions; thresholds grid; exact ties; sizes to 10007')
p('P09', 'Phase-space thresholding flags exactly the points outside an ellipse',
  'A sample is flagged exactly when it lies outside at least one of the three ellipses (value/first derivative, first/second derivative, value/second derivative rotated by the principal angle) whose extents are the universal threshold times the standard deviations. Indices are increasing, distinct and within the record.',
  ['inputs'], 'every series of fluctuations', NONE + 'each ellipse decides for different samples; a wrong axis or angle only changes the verdict of particular spikes.',
  [DET + 'phasespace.py', DET + 'poincare.py'], [('phasespace_thresholding', DET + 'phasespace.py')], TREE, 'every series over 4 values up to 7 (8) samples; spike of 17 heights at every position; opposite spike pairs; 18 shapes; sizes to 2500 (10007); samples within 1e-7 of a threshold are not judged')
p('P10', 'Premodification replaces the large samples and reports the protected ones',
  'Samples whose magnitude exceeds c2 times the median absolute deviation times the universal threshold are replaced by the last valid sample, all others are returned unchanged; the reported protected indices are exactly the samples within c1 median absolute deviations of zero. The caller\'s data is not modified.',
  ['inputs', 'configurations'], 'every series and threshold pair', NONE + 'which samples are removable depends on the whole series through two medians.',
  [DET + 'phasespace.py', REP], [('phasespace_thresholding_premodification', DET + 'phasespace.py')], TREE, 'every series over 4 values up to 7 (8) samples; 9 threshold pairs; runs of either sign; sizes to 10007')
p('P11', 'Three-dimensional phase-space thresholding flags points outside the ellipsoid',
  'After centring and rotation by the principal angle of value and second derivative, a sample is flagged when it lies outside the ellipsoid whose semi-axes are the universal threshold times the standard deviations of the three rotated coordinates, and not flagged when it lies inside (up to the four-decimal arithmetic of the method). The verdict does not depend on the iteration counter or the mean passed along; a constant record has no spikes.',
  ['inputs'], 'every series, iteration number and mean', NONE + 'the rounding, the sign branch of the third coordinate and the angle only matter for particular samples.',
  [DET + 'spherical.py'], [('spherical_phasespace_thresholding', DET + 'spherical.py')], TREE, 'every series over 4 values up to 6 (7) samples; 17 heights at every position, 2 backgrounds, 2 iterations; 19 shapes x 60 lengths; magnitudes to 2^11; an undecided band covers the 4-decimal rounding')
p('P12', 'Velocity correlation flags exactly the points outside a pairwise ellipse',
  'After removing the means, a sample is flagged exactly when, for at least one of the three pairs of components, it lies outside the ellipse rotated by that pair\'s regression angle with extents equal to the universal threshold times the standard deviations; a pair without such an ellipse flags nothing. Indices are increasing, distinct and within the record, and the verdict does not depend on constant offsets of the components.',
  ['inputs'], 'every triple of series', NONE + 'three pairs with three angles: an error in one pair needs a spike that only this pair sees.',
  [DET + 'correlation.py', DET + 'poincare.py'], [('velocity_correlation', DET + 'correlation.py')], TREE, 'every triple of 2- and 3-(4-)sample series over 3 values; spikes in every subset of components at every position; 13^3 shape triples; sizes to 2500 (10007)')
p('P13', 'Kernel-density detection: density, cut-offs and flagged samples',
  'For a pair of components the returned estimate is the Gaussian kernel density (Scott bandwidth) of the rotated data on its bounding grid, and a sample is flagged exactly when it lies outside the ellipse through the cut-offs, the grid points nearest to the density peak on either side where relative density and relative slope are both below the threshold (else the ends of the grid). The three-dimensional detector flags the union over the three pairs of value, first and second derivative.',
  ['inputs', 'configurations'], 'every pair of series, every grid size', NONE + 'the cut-off search has one result per density profile and threshold; fallbacks at both ends show only for particular profiles.',
  [DET + 'trivariatekernel.py', DET + 'bivariatekernel.py'], [('kernel, three_dimensional_kernel', DET + 'trivariatekernel.py'), ('profile cut-offs', DET + 'bivariatekernel.py')], TREE,
  'every 4- and 5-sample series over 3 values against fixed partners; 10 heights at every position, 2 grids; 19 shapes; every density profile over 3 levels up to 6 points; degenerate covariance and grid ties not judged')
p('P14', 'Pollution rate counts the samples outside the filtered band',
  'The pollution rate is 100 times the fraction of samples that lie above the filtered signal plus k standard deviations of the raw signal or below the filtered signal minus the same amount (strictly).',
  ['inputs'], 'every pair of series and every non-negative factor', NONE + 'offsets, signs and ties of the band matter only when the filtered signal is not zero-mean or the deviation is one-sided.',
  [DET + 'pollution.py', STA + 'spread.py'], [('pollution_rate', DET + 'pollution.py')], TREE, 'every pair of series over 4 x 3 values up to 3 (4) samples x 4 factors; exact ties; position/deviation/offset sweep; sizes to 10007')
p('P15', 'Any history of detect-and-replace passes stays sane',
  'Along every sequence of detection and replacement passes over a record, each pass keeps the length, changes flagged samples only, leaves no non-finite sample, gives the same successor when repeated, and returns a record without detections unchanged (up to the documented rounding). Passes that replace by held, mean, median, linearly interpolated or moving-average values never widen the range of the record.',
  ['histories'], 'every sequence of up to 2 (3) detect/replace steps over 5 detectors and 7 replacements, from every listed record', 'No test composes detectors with replacements; the state after one pass (rounded, flat runs, repeated values) is an input the unit tests never build.',
  [DET, REP], [('detectors', DET), ('replacements', REP)], 'explicit-state breadth-first search over despiking histories of the real code', 'all histories of 2 (3) steps over 5 x 7 step labels from 8 records x 3 sizes; 729 (2187) small records, two passes; reached records are deduplicated')
p('P16', 'Order statistics and spread are exact and invalid data is refused',
  'Minimum, maximum, median, mode (value and count, smallest value on ties), population variance and standard deviation equal their mathematical definition for every numeric series. '
  'An empty series is refused with a value error and data containing strings with a type error by all but mode, NaN is refused with a value error by minimum and maximum, and matrices with a value error by median, variance and standard deviation.',
  ['inputs'], 'every series', 'The tests check a handful of fixed arrays; ties, even lengths, permutations, offsets and magnitudes are not explored.',
  [STA + 'descriptive.py', STA + 'spread.py'], [('min, max, median, mode', STA + 'descriptive.py'), ('variance, std', STA + 'spread.py')], TREE, 'every series over 4 values up to 7 (8) samples, all 5040 orders of 7 values, 19 shapes x every length to 69, magnitudes 2^-30..2^54, sizes to 10007')
p('P17', 'Mean averages exactly the numbers among its input',
  'For numeric data the mean is the arithmetic mean whatever the container; in mixed data strings that read as numbers count as those numbers and other strings are ignored, wherever they stand; a single number is its own mean. Data without any number, plain strings and empty lists, tuples or arrays yield an invalid-input message instead of a number, and the argument is not modified.',
  ['inputs'], 'every series and every mix of numbers and strings', 'The tests sample a few lists; order and position of the convertible and non-convertible strings matter.',
  [STA + 'descriptive.py'], [('mean', STA + 'descriptive.py')], TREE, 'every series over 4 values up to 6 (7); every mix of 9 items up to 4 (5) in 4 containers, of 13 spellings and number types up to 3 (4); sizes to 65537')
p('P18', 'Skewness and kurtosis equal the standardised central moments',
  'Skewness is the third and kurtosis the fourth population central moment, standardised by the population standard deviation (no bias correction, normal kurtosis 3), for every series with nonzero spread. Kurtosis of a matrix is that of its flattened values, and NaN if the data contains NaN.',
  ['inputs'], 'every series with spread', 'The tests compare a few fixed samples.', [STA + 'moment.py'], [('skewness, kurtosis', STA + 'moment.py')], TREE,
  'every series over 4 values up to 6 (7), every two-valued distribution to 79 samples, matrices, NaN at every position, 19 shapes x every length, offsets and magnitudes, sizes to 10007; exact rational reference')
p('P19', 'Normal distribution functions are accurate everywhere',
  'Density (with mean and standard deviation), cumulative probability and survival function equal the normal law at every argument, and their logarithms at the arguments where double precision can represent them, elementwise for numbers, integers, lists and arrays of any shape. '
  'Cumulative probability is monotone within [0, 1] and adds up to one with the survival function; empty input is refused with a value error and NaN with a type error.',
  ['inputs'], 'every real argument, array shape, mean and deviation', 'The tests evaluate a few points; the cumulative probability has three regions and elementwise branches whose seams (1, sqrt 2 multiples, signs) need every neighbour.',
  [STA + 'distributions/normal.py'], [('cdf, pdf, sf, log_*', STA + 'distributions/normal.py')], TREE, 'every multiple of 1/64 (1/256) in [-10, 10], integers to 37, both neighbours of every constant of the source; every array over 8 values up to 3 (4) elements; shapes; parameter grid')
p('P20', 'Skewness and kurtosis tests report the reference statistic and p-value',
  'The skewness test reports D\'Agostino\'s and the kurtosis test Anscombe and Glynn\'s z statistic (zero for data with exactly zero third moment), and p-values that are the matching upper, lower or two-sided normal tail, within [0, 1]. Fewer than 8 (5) samples or an unknown alternative are refused with a value error.',
  ['inputs', 'configurations'], 'every series, every alternative', 'The tests compare a few samples with two-sided alternatives; symmetric, extremely flat and small samples are not covered.',
  [STA + 'distributions/normal.py', STA + 'moment.py'], [('skewtest, kurtotest', STA + 'distributions/normal.py')], TREE, 'every series over 3 values of 5..8 samples, every two-valued series of 9..11 (12), every two- and three-valued distribution to 69 (89) samples, 19 shapes, x 4 alternatives')
p('P21', 'Moving averages average exactly their window',
  'The simple moving average at each position is the mean of the last window samples (of all samples so far while fewer are available); the exponential average follows the first-order recursion started at the first sample and stays within the range of the data; the linearly weighted average returns, for each window followed by a further sample, the weighted mean with weights growing towards the newest sample. '
  'Windows and periods outside 1..n and smoothing factors outside (0, 1] are refused with a value error, the simple average of an empty series is empty and of a matrix a value error.',
  ['inputs', 'configurations'], 'every float series, window, period, factor', 'The tests use fixed short arrays with one or two windows.', [STA + 'series.py'], [('moving_average, exponential_moving_average, weighted_moving_average', STA + 'series.py')], TREE,
  'every series over 3 values up to 7 (8) x every window/period x 8 factors; 6 shapes x every length to 44 (69) x every window; impulses; sizes to 4099')
p('P22', 'Singular spectrum analysis keeps the slow components',
  'The result is the diagonal average of the projection of the trajectory matrix (window length ceil(fs/f)) on those of its left singular vectors whose mobility is below that of a sine of frequency f, rounded to four decimals, with the length of the input.',
  ['inputs', 'configurations'], 'every series and pair of frequencies with a window of 3..n samples', NONE + 'window rounding, component selection and averaging depend on series and window together.',
  [STA + 'series.py'], [('ssa', STA + 'series.py')], TREE, 'every series over 3 values of 3..7 (8) samples, every window 3..n for n 24, 31, 40, 16 shapes x every length; near-equal singular values or mobilities are not judged')
p('P23', 'Kalman filter equals the random-walk Kalman recursion',
  'The filtered value of every sample is the posterior mean of the scalar random-walk model with the given initial state, initial covariance, process noise and measurement noise, one estimate per sample, for parameters given as matrices, nested lists or integers.',
  ['inputs', 'configurations'], 'every series, initial state and non-negative covariance and noise parameters', NONE + 'predict/update order and covariance propagation only show over several samples and particular noise ratios.',
  [STA + 'series.py'], [('kalman_filter', STA + 'series.py')], TREE, 'every series over 3 values up to 5 (6) x 13 parameter vectors; 144 parameter vectors x 20 series; impulses; 19 shapes')
p('P24', 'Turbulent energy and Reynolds stresses are the component covariances',
  'The six Reynolds stresses are the population covariances of the velocity components in the order uu, vv, ww, uv, uw, vw, and the turbulent kinetic energy is half the sum of the three variances, whatever the mean flow.',
  ['inputs'], 'every triple of series', NONE + 'mixed-up components or missing mean removal need unequal, offset components to show.',
  [STA + 'signal/fluid.py'], [('reynolds_stresses, kinetic_turbulent_energy', STA + 'signal/fluid.py')], TREE, 'every triple of series over 3 (2) values up to 3 samples, 9^3 shape triples, every length to 69; exact rational reference')
p('P25', 'Power spectra are the averaged Hann periodograms',
  'The spectrum is the average of the periodograms of mean-removed, Hann-windowed (symmetric) blocks of the given length advancing by the block length minus the overlap percentage, scaled as a density, with one-sided spectra doubled except at zero and the Nyquist line; frequencies are the matching multiples of the sampling rate over the block length.',
  ['inputs', 'configurations'], 'every series, sampling rate, block length, overlap, sidedness', NONE + 'hop rounding, odd/even blocks and the doubling rule depend on the configuration.',
  [STA + 'signal/spectrum.py'], [('power_spectra', STA + 'signal/spectrum.py')], TREE, 'every series over 3 values of 4..7 (8) samples x 4 (6) blocks x 4 overlaps x 2; every block 3..20 x 20 (100) overlaps; a tone at every line; default 2048 block')
p('P26', 'Synthetic pollution plants exactly the requested spikes',
  'Exactly the requested percentage of the samples (rounded down) is changed, all at distinct positions, with alternating sign along the record and an amplitude of the percentage plus the magnitude of a normal random part (deviation 0.05), both times the mean, whatever the random source answers; every sample can be hit. All other samples are unchanged, percentages above 100 are refused with a value error, and the call always returns.',
  ['inputs', 'fault_sequences'], 'every series, percentage and every sequence of answers of the random source', NONE + 'colliding random draws cannot be provoked reliably by a test.',
  [STA + 'signal/synthetic.py'], [('synthetic_noise', STA + 'signal/synthetic.py')], 'exhaustive enumeration of the answers of the random source (environment model checking) on the real code', 'every sequence of integer draws for up to 4 (5) samples and every number of spikes; 14 percentages x 6 sizes x fixed seeds')
p('P27', 'Butterworth designs have the Butterworth response',
  'For every order, band type, critical frequency, analog or digital design and sampling rate, zeros/poles/gain, numerator/denominator and second-order sections all realise the same stable filter whose response is the (bilinear, prewarped) Butterworth response, with half power at every critical frequency. Inconsistent or out-of-range requests are refused with a value error, unknown band types with a not-implemented or value error.',
  ['inputs', 'configurations'], 'every order, band type, critical frequencies, analog/digital, sampling rate, output form', NONE + 'the product of configurations is far beyond samples; each representation has its own code path.',
  [STA + 'signal/butter.py'], [('butterworth', STA + 'signal/butter.py')], TREE, 'orders 1..6 (8), every critical frequency k/20 and every pair, analog grid, 5 sampling rates, complex response at 8-16 points; ill-conditioned polynomial evaluations not judged')
p('P28', 'Filter transformations and representations preserve the transfer function',
  'Low-pass to low-pass, high-pass, band-pass and band-stop transformation and the bilinear map send a system of zeros, poles and gain to the system whose response is the original one at the transformed frequency, and refuse more zeros than poles; conversion to polynomials and to second-order sections (every pairing, any order of the roots) preserves the response, up to a pure delay where zeros and poles differ in number for digital sections. A matrix of zeros, one row per output, gives one numerator per output. Unpaired complex roots, unknown pairings, complex gains and invalid orders are refused with a value error.',
  ['inputs', 'configurations'], 'every conjugate-closed set of zeros and poles, every parameter and pairing', NONE + 'pairing decisions depend on the multiset of real and complex roots.',
  [STA + 'signal/butter.py'], [('low_to_*, bilinear, buttap, xyz_to_sop, xyz_to_ptf', STA + 'signal/butter.py')], TREE, 'every conjugate-closed multiset of up to 3+3 root groups over a 7-letter alphabet, all permutations of roots for small ones, 4 pairings, 3 parameter sets')
p('P29', 'The bracketing root finder only reports enclosed roots',
  'Whatever values the function takes, the root finder evaluates it only inside the bracket, stops within the iteration limit, and reports convergence only at a zero or where a sign change was observed within the tolerance; otherwise it says so (value error, or not converged in the full output). Reported evaluation counts are true, the full output does not change the search, and brackets that are empty, reversed or without sign change are refused with a value error.',
  ['inputs', 'fault_sequences'], 'every sequence of function values (the function is an adversary), bracket, tolerance and iteration limit', NONE + 'the branch taken at each step depends on the values seen so far: a tree of answers.',
  [STA + 'optimize/optimize.py'], [('brentq', STA + 'optimize/optimize.py')], 'exhaustive game-tree exploration: an adversary answers every evaluation of the real code', 'every answer sequence of length <= 5 (6) over 5 values and 7 (8) over 4 values; maxiter 0..11; 6 brackets x 5 tolerances x 5 continuations; 16 known functions')
p('P30', 'The bounded minimiser returns the best point it has seen',
  'Whatever values the function takes, the minimiser evaluates it only inside the bounds, makes no more evaluations than allowed (and reports their number truthfully), returns the best point seen with its value, and claims convergence only when points within the tolerance on both sides (or the bound) are no better. Extra parameters reach the function unchanged and invalid bounds are refused with a value error.',
  ['inputs', 'fault_sequences'], 'every sequence of function values, bounds, tolerance and evaluation limit', NONE + 'golden-section and parabolic steps alternate depending on the values seen.',
  [STA + 'optimize/optimize.py'], [('fminbound', STA + 'optimize/optimize.py')], 'exhaustive game-tree exploration: an adversary answers every evaluation of the real code', 'every answer sequence of length <= 5 (7) over 4 values with 2 continuations; limits; bounds x tolerances; 10 known functions')
p('P31', 'Bivariate kernel density is the smoothed histogram of the data',
  'The density returned on the grid is nonnegative, integrates to one, and is the two-dimensional histogram of the data smoothed by Gaussians of the given relative bandwidths with reflection at the boundaries; the meshes span the data range, rows follow the second component and columns the first, and exchanging the components transposes the density.',
  ['inputs', 'configurations'], 'every data set with spread in both components, bandwidths and grid size', NONE + 'orientation, binning at the maximum and normalisation depend on grid and data.',
  ['proadv/kernel/bivariate.py'], [('bivariate_kernel', 'proadv/kernel/bivariate.py')], TREE, 'every sequence of 3..4 (5) out of 4 points x 2 grids, every grid 3..19, 28 bandwidth pairs x 4 scales, sizes to 1500')
p('P32', 'Calls are pure: no history of calls changes a later result',
  'No call of the public interface changes its arguments, an earlier result, the caller\'s random state, the numeric error, warning or print settings or other settings of the process, or the outcome of a later call: each call gives what it gives as the first call of a fresh process, after any history of other calls, refused ones included, and after the caller overwrote the arrays of earlier calls. Results never share memory with arguments or other results.',
  ['histories'], 'every history of calls of the public interface', 'Unit tests run each function on fresh arguments and look at its result only; caches, shared buffers and leaked settings need a second call.',
  ['proadv/'], [('all public functions', 'proadv/')], 'exhaustive exploration of call histories up to a depth on the real code, against fresh-process outcomes', '60 functions x 3 look-alike data sets (+ refused calls): all ordered pairs, all same-function histories of 3 (4), all triples over 13 functions, with poisoning and array reuse')
p('P33', 'Concurrent calls do not disturb each other',
  'Calls made at the same time from two threads on separate data give the results they give alone, in every interleaving, and none of them hangs.',
  ['schedules'], 'every schedule of two concurrent calls with at most two preemptions, at line granularity', 'Tests are single-threaded; interference needs a switch inside a call.',
  ['proadv/'], [('all public functions except the one drawing from the global random source', 'proadv/')], 'stateless model checking: controlled line-level scheduler over real threads, preemption-bounded', 'every single preemption point of every function against another call of it; 14x13 ordered function pairs; two preemptions among first and last lines')
p('P34', 'The container, layout and integer width of data do not matter',
  'Data given as list, tuple, strided, reversed, read-only, unaligned, big-endian or Fortran-ordered array gives the result of the plain float array; integer data gives the result of the same numbers as floats; flag lists may be lists, tuples or integer arrays of any width.',
  ['inputs', 'configurations'], 'every function, every data argument, every container and layout', 'Tests pass contiguous float arrays or short lists only.',
  ['proadv/'], [('all public functions taking data', 'proadv/')], TREE, '60 functions x 3 data sets x 11 layouts x each data argument; 4 integer widths; data filling the range of 7 integer types; every 4-sample series of extreme integers; 9 flag containers')
p('P35', 'Ellipse and derivative helpers equal their definition',
  'The rotated-ellipse helper returns the semi-axes whose rotated ellipse has the given extents (axes so large that nothing lies outside when no such ellipse exists), the ellipse coordinate equals the squared normalised distance in the rotated frame, derivatives are central differences (zero at both ends, four decimals), and the detector parameters are the standard deviations, universal threshold, angle and ellipse axes.',
  ['inputs'], 'every series, angle, deviation and threshold', NONE + 'a wrong quadrant or a swapped axis only shows at particular angles and ratios.',
  [DET + 'poincare.py', DET + 'phasespace.py', DET + 'correlation.py'], [('calculate_ab, calculate_rho', DET + 'poincare.py'), ('calculate_derivatives, calculate_parameters', DET + 'phasespace.py')], TREE,
  '25 deviation pairs x 103 angles x 3 thresholds; every series over 4 values up to 7 (8) samples; 19 shapes')
p('P36', 'The kernel estimator\'s root search stays in range and finds the root',
  'The widening root search of the kernel estimator evaluates the function only between 0 and 0.1, always returns, returns a sign change inside the first of its doubling brackets (from a width growing with the sample count from 1e-12 to 0.01) that shows one (so the sign change of a monotone function whenever a bracket encloses it), and otherwise a minimiser of its absolute value within the range.',
  ['inputs'], 'every monotone function and sample count', NONE + 'the first bracket, the doubling and the fallback depend on the sample count and the position of the root.',
  ['proadv/kernel/bivariate.py'], [('root', 'proadv/kernel/bivariate.py')], TREE, '7 monotone functions of either direction x 21 (60+) sign changes x 17 (60+) sample counts, and functions without sign change')


# spaces shared by many checks
MAG = '; small words at magnitudes 2^-60..2^60'
LONG = '; 40009 and 70001 samples'
REC = '; stretches of a deterministic ADV-like record'
MORE = {}
for q in ('P03', 'P04', 'P05', 'P06', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P16', 'P18', 'P20', 'P21', 'P22', 'P23', 'P24', 'P25', 'P31', 'P35', 'P36'):
    MORE[q] = MORE.get(q, '') + MAG
for q in ('P01', 'P02', 'P03', 'P04', 'P05', 'P07', 'P08', 'P09', 'P10', 'P12', 'P14', 'P16', 'P18', 'P19', 'P21', 'P24', 'P25'):
    MORE[q] = MORE.get(q, '') + LONG
for q in ('P04', 'P05', 'P06', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P18', 'P22', 'P24', 'P25'):
    MORE[q] = MORE.get(q, '') + REC
MORE['P32'] = '; same data with other parameters, permuted data, long histories of one function; every pair of settings of each parameter; every argument spoilt; process settings watched; every call on every series structure'
MORE['P33'] = '; preemption by the same function with other parameters'
MORE['P28'] = '; gains 1e-200..1e9, frequencies 1e-6..1e6, documented defaults; several outputs (2-D zeros); high orders'
EXTRA = {
    'P01': 'one or two missing or infinite samples',
    'P14': 'missing or infinite filtered samples; typed series',
    'P19': 'column-order arrays up to 4-D',
    'P20': 'nearly symmetric matrices; several sign changes',
    'P21': 'large windows; adjacent answers',
    'P22': 'typed series',
    'P24': 'weak turbulence on strong flow',
    'P25': 'every overlap',
    'P27': '10 sampling rates, fractional ones included; corner frequencies; high orders',
    'P29': 'zero tolerances; tiny roots and values; nested searches',
    'P30': 'zero tolerances; tiny intervals; nested searches',
    'P31': 'large grids; up to 66000 samples in a cell',
    'P13': 'equal density peaks',
    'P11': 'slow motion',
    'P36': 'several sign changes',
}
for q in ('P08', 'P10', 'P11', 'P14', 'P28', 'P29', 'P30', 'P31', 'P35'):
    MORE[q] = MORE.get(q, '') + '; further values of every numeric parameter'
for q in ('P08', 'P09', 'P10', 'P11', 'P12', 'P14'):
    MORE[q] = MORE.get(q, '') + '; whole numbers of 7 integer types'
for q in ['P%02d' % i for i in range(1, 26)] + ['P26', 'P31', 'P35']:
    MORE[q] = MORE.get(q, '') + '; gallery of series structures'
for q, t in (('P27', 'the same request in other words'), ('P29', 'number types of bracket and values'), ('P30', 'number types of bounds and values'), ('P36', 'number types of function values')):
    MORE[q] = MORE.get(q, '') + '; ' + t
for q, t in EXTRA.items():
    MORE[q] = MORE.get(q, '') + '; ' + t


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['quant']},
                                'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']]}}) + '\n')
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy, sklearn"',
           'checks': [{'property': x['id'], 'quick_cmd': './check %s quick' % x['id'], 'thorough_cmd': './check %s thorough' % x['id'],
                       'evidence_file': 'evidence/%s.json' % x['id'], 'technique': x['technique'], 'level': 'model_checking', 'level_note': x['note'] + MORE.get(x['id'], '')} for x in P],
           'not_applicable': [],
           'notes': 'All checks explore the real code imported from /repo; bounds in evidence/*.json (coverage.bounds). No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
