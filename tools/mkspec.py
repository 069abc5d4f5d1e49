#!/usr/bin/env python3
"""Write /verif/properties.jsonl and /verif/MANIFEST.json from one table, so the two stay in step."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = 'kalepy/'
KDE, KER, SAM, UTI, PLO, INI = (K + f for f in ('kde.py', 'kernels.py', 'sample.py', 'utils.py', 'plot.py', '__init__.py'))

TECH = {}
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), claim=True, reason=None, technique=None, note=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))
    TECH[pid] = (claim, reason, technique, note)


prop('P01', 'No call modifies the arrays, lists or dicts its caller passed in',
     'No public function or method changes the contents of an array, list or dictionary passed to it by the caller, neither '
     'during the call nor in a later call through a reference it kept.',
     ['inputs', 'histories'], 'every public callable, every argument, every aliasing path (asarray, views, stored references), later calls included',
     'Tests never compare an argument before and after a call; aliasing through asarray/atleast_2d/views only shows for particular input types.',
     [KDE, KER, SAM, UTI, PLO, INI],
     [('copies made before in-place updates', KER + ':Kernel.density, _resample_clear, _reflect_data, _check_reflect'),
      ('np.array copies', UTI + ':cov_keep_vars, midpoints, quantiles, trapz_nd'), ('Corner argument dictionaries and limits', PLO + ':Corner')],
     technique='alias/ownership and write-effect analysis (abstract interpretation of the source)',
     note='Flow- and alias-sensitive: every write through a buffer, list or dict reachable from an argument is reported. Assumes the '
          'documented numpy/matplotlib view-versus-copy behaviour encoded in the models; unmodelled library calls are assumed not to write to their arguments (counted in evidence).')

prop('P02', 'Results do not depend on earlier calls',
     'The result of a public call depends only on its arguments, the construction of the object it is called on and the numpy random state; '
     'no earlier call on the same or another object changes it. Default arguments, module globals and lazily filled caches never carry '
     'the arguments of one call into another.',
     ['histories', 'configurations'], 'every sequence of public calls on KDE, Kernel, grid-sampler and Corner objects',
     'Tests use each object for one or two calls; leaks through a cache or a mutable default need a particular earlier call.',
     [KDE, KER, SAM, PLO, UTI],
     [('lazy caches', KDE + ':KDE.points, KDE.cdf; ' + KER + ':Kernel.matrix_inv, Kernel.norm; ' + SAM + ':Sample_Grid.grid'),
      ('default dictionaries', PLO + ':Corner.clean/hist/plot')],
     technique='effect analysis: escape and provenance of every write to object, global and default-argument state',
     note='Every write outside constructors to state that outlives the call is found; it is accepted only when the stored value provably depends on construction state alone. '
          'Same assumptions about library models as P01.')

prop('P03', 'Randomness comes only from numpy\'s global generator, never reseeded',
     'All randomness comes from the global numpy generator, which the library never seeds, resets or replaces. Constructing a KDE, evaluating '
     'density, pdf, cdf, kernels, grids, quantiles or histograms, and drawing plots of them, consumes no random numbers.',
     ['histories', 'configurations'], 'all public entry points and all configurations of their arguments',
     'Each test seeds the generator itself, so a hidden seed or draw is invisible to it.',
     [KDE, KER, SAM, PLO, UTI],
     [('who-may-draw: distribution samplers, resample, grid samplers', KER + ':*._sample, Kernel._resample_clear; ' + SAM)],
     technique='effect analysis over the resolved call graph (RNG effects)',
     note='Decides the set of random-generator effects reachable from each public entry point over all paths. Trusts the table of numpy/scipy/stdlib functions that draw.')

prop('P04', 'Results move with the units and origin of the data',
     'Changing the unit of one data dimension, or shifting its origin, changes results only by that unit or shift: densities scale by the inverse units of '
     'the dimensions evaluated and are otherwise unchanged, automatic evaluation points and resampled points move with the data, cdf values do not change.',
     ['inputs'], 'all data scales, offsets, per-dimension units, weights, kernels, parameter subsets and boundaries',
     'Tests use data of order one; a wrong power of the bandwidth, a swapped dimension or an absolute tolerance looks right at that scale.',
     [KDE, KER, UTI, SAM],
     [('kernel matrix = covariance x bandwidth^2, whitening, determinant norm', KER + ':Kernel'), ('automatic edges and extrema', UTI + ':parse_edges, _guess_edges, _parse_extrema; ' + KDE)],
     technique='unit (dimension) and translation type inference on gated value numbers',
     note='A type system: every value gets an exponent per data dimension and a translation class; results must have the type the statement says. '
          'Values through unmodelled library calls are undecided and counted, not reported.')

prop('P05', 'Density is the normalised weighted kernel sum over all data points',
     'For every dataset, weights, bandwidth, kernel and evaluation points, the density at a point is the sum over all data points of weight times the normalised kernel of their '
     'displacement measured by the kernel covariance matrix; selecting parameters restricts points, data and matrix to those dimensions in the order given. '
     'The pdf is that density divided by the total weight (the number of points when unweighted).',
     ['inputs', 'configurations'], 'all sizes, contents, dimensions, parameter subsets, weights and kernels',
     'Tests compare a few one- and two-dimensional cases at loose statistical tolerance.',
     [KDE, KER],
     [('kernel sum', KER + ':Kernel.density, _evaluate_numba'), ('argument preparation and probability normalisation', KDE + ':KDE.density')],
     technique='value numbering of the source against the defining formula (symbolic sizes, loops summarised as reductions)',
     note='The value number of the result must equal that of the definition for symbolic numbers of data and evaluation points and for 1 to 3 dimensions. Exact arithmetic is assumed (no rounding).')

prop('P06', 'Reflecting boundaries: mirrored density inside, zero outside',
     'With reflecting boundaries the density inside is the direct estimate plus the estimate from the data mirrored about each given boundary in its own dimension, and it is exactly zero '
     'at every point outside any given boundary. A dimension or side given as None is unconstrained, and True stands for a boundary just outside the data extremum.',
     ['inputs', 'configurations'], 'all combinations of None / one-sided / two-sided / True boundaries over 1 to 3 dimensions, all points and data',
     'Tests reflect at most one or two hand-picked configurations with positive data.',
     [KER, KDE], [('reflection sum and zeroing', KER + ':Kernel.density'), ('boundary validation', KER + ':_check_reflect')],
     technique='value numbering of the source against the defining formula, over all boundary patterns',
     note='As P05; boundary patterns enumerated exhaustively for up to 2 dimensions and sampled for 3.')

prop('P07', 'Resampling with boundaries stays inside and uses the mirrored data',
     'Every point drawn with reflecting boundaries lies within every given boundary, and exactly the requested number of such points is returned or an error is raised. '
     'Points are drawn around the data and around its mirror images about each given boundary, each copy keeping the weights of the original points.',
     ['inputs', 'histories'], 'all data, weights, sizes, chunk sizes and boundary patterns; every outcome of the rejection loop',
     'Tests check a handful of seeds; the rejection loop, chunking and boundary bookkeeping have many more histories.',
     [KER, UTI], [('rejection loop', KER + ':Kernel._resample_reflect'), ('mirrored copies', KER + ':Kernel._reflect_data, _truncate_reflections'), ('bound filter', UTI + ':bound_indices')],
     technique='predicate dataflow over the rejection loop and value numbering of the mirrored data',
     note='Decides that only filtered candidates reach the output, that the output is completely filled on every normal return, and that the mirrored data and weights equal their definition.')

prop('P08', 'Resampled points are weighted data points plus kernel displacements',
     'Each resampled point is one data point, chosen with probability proportional to its weight (uniformly when unweighted) and used for all coordinates together, plus a displacement drawn from the '
     'kernel with the kernel covariance matrix. Coordinates named by keep carry the data values exactly; the number of points is the requested size, by default the number of data points.',
     ['inputs', 'configurations'], 'all data, weights, sizes, keep sets and dimensions',
     'Tests are statistical and cannot see pairing errors, a wrong covariance orientation in 3 dimensions or a slightly wrong selection probability.',
     [KER, KDE, UTI], [('selection and displacement', KER + ':Kernel._resample_clear'), ('covariance colouring', UTI + ':add_cov'), ('keep', UTI + ':cov_keep_vars')],
     technique='value numbering of the source against the defining formula, random draws as uninterpreted symbols',
     note='Decides the composition of the sample from the random draws, not the quality of numpy\'s generator.')

prop('P09', 'Every kernel is non-negative, normalised and has its declared support',
     'For every registered kernel and every number of dimensions, the kernel function is non-negative, depends only on the distance from the centre, integrates to one after division by its normalisation '
     'constant, and vanishes outside the unit ball exactly when it is declared finite. Every registered name selects its own kernel.',
     ['inputs', 'configurations'], 'all distances, all kernels, all numbers of dimensions',
     'Tests integrate numerically in one to three dimensions with loose tolerance.',
     [KER], [('kernel classes', KER + ':Gaussian, Box, Parabola, Triweight'), ('normalisations', KER + ':_nball_vol, _beta_kernel_norm'), ('registry', KER + ':DISTRIBUTIONS, get_distribution_class')],
     technique='value numbering of kernel profiles and exact closed-form (rational x pi power) normalisation constants per dimension',
     note='Profile recognised up to algebraic equality as exp(-y2/2) or a truncated power (1-y2)^k; constants compared exactly for 1 to 8 dimensions.')

prop('P10', 'Kernel samplers draw from the density of their own kernel',
     'Random points drawn from a kernel follow that kernel\'s own normalised density in any number of dimensions: an isotropic direction times one radius per point whose distribution is the radial law of the kernel.',
     ['inputs', 'configurations'], 'all kernels, all numbers of dimensions',
     'Tests compare one-dimensional samples with a KS test only.',
     [KER], [('samplers', KER + ':Gaussian._sample, Box._sample, Parabola._sample, Triweight._sample')],
     technique='value numbering of the sampler over uninterpreted draws, matched against a table of radial-law identities',
     note='Decides the law of the transformed draws by matching against known identities; a sampler using another construction is undecided and quiet.')

prop('P11', 'Bandwidth rules, effective sample size and kernel covariance',
     'The Scott and Silverman factors are neff^(-1/(D+4)) and (neff(D+2)/4)^(-1/(D+4)), with neff the number of points or (sum of weights)^2 over the sum of squared weights unless given. '
     'The kernel covariance is the weighted data covariance (unless given) scaled element by element by the squared bandwidth, which a scalar, per-dimension or matrix specification, a diagonal request and a rescaling set as documented.',
     ['inputs', 'configurations'], 'all data, weights, dimensions and bandwidth specifications',
     'Tests check only a few specifications on unweighted data.',
     [KDE, KER], [('bandwidth', KDE + ':KDE._set_bandwidth, _compute_bandwidth, _scott_factor, _silverman_factor'), ('matrix', KER + ':Kernel.__init__')],
     technique='value numbering of the source against the defining formulas',
     note='Exact for symbolic data and weights, 1 to 3 dimensions, all specification kinds.')

prop('P12', 'Output shapes follow the documented contract',
     'density and pdf return values of shape (M,) for M points and the full grid shape for grid evaluation, resample returns (D, size) or (size,) for one-dimensional data unless squeezing is declined, '
     'cdf returns one value per point, and the grid samplers return one row per dimension and one column per sample.',
     ['inputs', 'configurations'], 'all sizes (also 1), dimensions, grid, params, keep and boundary options',
     'Tests try few shape combinations.',
     [KDE, KER, SAM, INI], [('squeeze / reshape logic', KDE + ':KDE.density, resample; ' + SAM + ':sample_grid, sample_outliers')],
     technique='shape inference with symbolic sizes',
     note='Shapes are derived for symbolic sizes by abstract interpretation; an operation whose shape is not modelled is undecided.')

prop('P13', 'Invalid input is rejected with ValueError before any result is produced',
     'Datasets without points, weights of the wrong length, negative, non-finite or all zero, evaluation points, params or boundaries whose dimension does not match the data, '
     'boundaries out of order, unknown kernels or bandwidth rules, keeping and reflecting the same dimension, and grids whose shape does not match are rejected with ValueError on every path.',
     ['inputs', 'configurations'], 'every invalid input class at every entry point that accepts it',
     'Tests try few invalid inputs per entry point; some error paths themselves crash.',
     [KDE, KER, SAM, UTI], [('validation', KDE + ':KDE.__init__, density; ' + KER + ':_check_reflect, Kernel.density; ' + UTI + '; ' + SAM)],
     technique='must-raise path analysis (abstract interpretation with interval and shape facts)',
     note='For each invalid class the analysis must show that no path returns normally and that the exception is a ValueError.')

prop('P14', 'cdf is the normalised cumulative integral and stays within [0, 1]',
     'The cdf is the cumulative trapezoid integral of the pdf over the evaluation grid divided by its maximum, interpolated linearly at the requested points; '
     'it never leaves [0, 1], also for points outside the grid.',
     ['inputs'], 'all data, weights, boundaries, dimensions and evaluation points',
     'Tests evaluate the cdf at points inside the data range only.',
     [KDE, UTI], [('cdf grid and interpolator', KDE + ':KDE.cdf'), ('integration', UTI + ':cumtrapz, cumsum, trapz_dens_to_mass')],
     technique='value numbering and typestate of the interpolator construction',
     note='Decides what is integrated, normalised and interpolated and that queries are confined to the grid; interpolation itself is scipy\'s.')

prop('P15', 'One-shot functions honour every argument they document',
     'The module-level density, pdf and resample functions return what a KDE built from the same data, weights, boundaries and constructor arguments returns, and the module-level sampling functions what the '
     'corresponding sampler objects return; every documented argument reaches the computation.',
     ['inputs', 'configurations'], 'all combinations of documented arguments',
     'Tests call the wrappers with few argument combinations.',
     [INI, SAM, KDE], [('wrappers', INI + ':density, pdf, resample; ' + SAM + ':sample_grid, sample_outliers, sample_grid_proportional')],
     technique='dependence analysis and value-number comparison of wrapper and object results',
     note='Compared for every documented argument, with symbolic data.')

prop('P16', 'Trapezoid masses, integrals, midpoints and centroids are exact per cell',
     'Converting densities on grid corners to masses gives each cell the mean of its corner densities times its volume along the requested axes; the cumulative and total integrals are the sums of those masses; '
     'midpoints are the mean of neighbouring values along the requested axes, and centroids are the trapezoid centres of mass of their cells.',
     ['inputs', 'configurations'], 'all grids (also non-uniform), densities, dimensions and axis choices',
     'Tests use a few grids, mostly uniform and low dimensional.',
     [UTI], [('integration', UTI + ':trapz_dens_to_mass, trapz_nd, cumtrapz, cumsum'), ('cells', UTI + ':midpoints, centroids, subdivide, bins')],
     technique='value numbering of the source against the defining formulas with symbolic grid sizes',
     note='Exact for symbolic grids in 1 to 3 dimensions and all axis choices.')

prop('P17', 'Grid sampling picks bins by mass and places samples inside them',
     'Sampling a gridded density picks each bin with probability equal to its share of the total mass (given, or the trapezoid mass), and places the sample within the edges of that bin in every dimension; '
     'any scalar returned with a sample belongs to the same bin as its position, and with interpolation varies within the bin along the dimensions its density varies along.',
     ['inputs'], 'all grids, densities, masses and dimensions',
     'Tests compare histograms of samples on a few grids.',
     [SAM], [('bin choice', SAM + ':_data_to_cumulative, Sample_Grid._random_bins'), ('placement', SAM + ':Sample_Grid.sample, _intrabin_linear_interp')],
     technique='index-space and permutation tracking on value numbers',
     note='Decides the index algebra from cumulative mass to bin to edges; the in-bin distribution is claimed only for the uniform (non-interpolated) case.')

prop('P18', 'Outlier sampling accounts for every bin exactly once',
     'Every bin with mass above the threshold is represented exactly once, at its centroid, with its mass as weight; all other bins are sampled in proportion to their mass with weight one, their number being the total of their mass. '
     'The number of points and of weights returned agree.',
     ['inputs'], 'all grids, masses, thresholds and Poisson options',
     'Tests check totals on a few grids.',
     [SAM], [('partition', SAM + ':Sample_Outliers.__init__'), ('assembly', SAM + ':Sample_Outliers.sample')],
     technique='index-space and mask-partition tracking on value numbers',
     note='Decides the partition, the pairing of positions and weights, and the counts.')

prop('P19', 'Automatic evaluation grids cover the data or the requested range',
     'Evaluation points generated automatically run from the lower to the upper end of the requested range of their own dimension, which defaults to the data extrema extended outward by at least the kernel bandwidth, '
     'or to the reflecting boundaries where given; edges given explicitly are used unchanged.',
     ['inputs', 'configurations'], 'all data, weights, kernels, boundary and edge specifications',
     'Tests look at a few sizes and never at the span per dimension.',
     [KDE, UTI], [('extrema', KDE + ':KDE.__init__; ' + UTI + ':_parse_extrema, minmax'), ('edges', UTI + ':parse_edges, _get_edges_1d, _guess_edges; ' + KDE + ':KDE.points')],
     technique='value numbering of the end points of generated edges',
     note='Decides the end points and pass-through of explicit edges; the number of bins is only required to be a positive count independent of units (P04).')

prop('P20', 'Weighted quantiles keep every value with its own weight',
     'Weighted quantiles sort values together with their own weights, use the cumulative weight at the middle of each value, are unchanged when all weights are rescaled, and treat each requested axis independently; '
     'without weights every value counts equally.',
     ['inputs'], 'all values, weights, percentiles and axes',
     'Tests use one-dimensional data only.',
     [UTI], [('quantiles', UTI + ':quantiles, iqrange')],
     technique='permutation-pairing and value numbering of the source',
     note='Exact for symbolic values and weights, one- and two-dimensional input.')

prop('P21', 'Corner and one/two-dimensional plots put each dimension on its own axis',
     'In a corner plot, everything drawn in the panel of row i and column j has dimension j along x and dimension i along y; diagonal panels show dimension i (along y instead when rotated) against its density or counts. '
     'Limits, scales, edges, levels, quantiles and weights given for one dimension are applied to that dimension only, and data weights reach every histogram, quantile and KDE drawn.',
     ['inputs', 'configurations'], 'all numbers of dimensions, rotations, limits, edges and plot options',
     'Tests of plots run a few notebooks and never look at what was drawn where.',
     [PLO], [('panels', PLO + ':Corner._data1d, _data2d, _kde1d, _kde2d, target'), ('drawing', PLO + ':dist1d, dist2d, hist1d, carpet, draw_hist1d, confidence')],
     technique='unit-type inference at plotting sinks',
     note='Units per dimension are inferred for the x and y arguments of every drawing call reached.')

prop('P22', 'Contour levels enclose the requested fractions of the gridded density',
     'The contours drawn for requested fractions (quantiles or sigmas) of a gridded density or of a histogram lie at the values for which the cells at or above, taken in decreasing order, '
     'hold as much of the total as possible without exceeding the fraction (the highest cell where a single one already exceeds it). Default fractions are those of 0.5, 1, 1.5 and 2 sigma of a two-dimensional normal. '
     'Levels increase, and explicitly given levels are used as they are.',
     ['inputs', 'configurations'], 'all densities, fractions and numbers of levels', 'Never tested.',
     [PLO], [('levels', PLO + ':_dfm_levels'), ('contours', PLO + ':draw_contour2d, contour, dist2d, hist2d')],
     technique='value graph of the levels drawn against the definition on random and tied densities',
     note='Linear order of the cells only: no claim about how matplotlib interpolates a contour between cells, nor about smoothed or upsampled grids.')

prop('P23', 'Histograms count weights once and normalise as documented',
     'A histogram holds, per bin, the sum of the weights of the data in the bin (counts without weights; bins are closed below and open above, the last one closed on both sides); with density it is divided by the width of each bin, '
     'with probability by the total, with both by both, so that its integral (or sum) is one. Edges that are given are used as they are, automatic edges cover the data. A one-dimensional histogram is drawn as one horizontal line per bin at its value (its maximum as asked when renormalised), '
     'a two-dimensional one as its density per bin, leaving out only bins below the asked value (by default option, below the weight of an average point).',
     ['inputs', 'configurations'], 'all data, weights, edges and normalisation flags', 'Tests use a few weights on uniform edges.',
     [UTI, PLO], [('histogram', UTI + ':histogram'), ('drawn', PLO + ':draw_hist1d, hist1d, draw_hist2d')],
     technique='value graph of the histogram against its definition',
     note='One- and two-dimensional histograms; data on the edges included.')

prop('P24', 'Array helpers keep their documented meaning for every shape and option',
     'Removing a covariance undoes adding it, and without a given one leaves data of identity covariance; bound_indices marks exactly the points strictly inside (or with outside, not inside) bounds, unbounded where None; '
     'minmax returns the extremes of the (or of the positive) data, stretched, including previous extremes, within limits, and the previous ones without data; midpoints lie between neighbours; subdivide keeps the original edges and inserts equally spaced (log-spaced) ones; '
     'spacing runs from the lowest to the highest value; flatten, jshape and isjagged agree on ragged arrays.',
     ['inputs', 'configurations'], 'all shapes and option combinations', 'Tests cover a few shapes.',
     [UTI], [('whitening', UTI + ':rem_cov, add_cov'), ('selection', UTI + ':bound_indices'), ('ranges', UTI + ':minmax, spacing, bins'), ('grids', UTI + ':midpoints, subdivide, centroids')],
     technique='value graph of each helper against a plain reference',
     note='Sizes up to a few elements per dimension; values symbolic.')

prop('P25', 'A KDE made from a histogram represents each bin at its centre with its own count',
     'KDE.from_hist(bins, hist) has one data point per bin, at the centre of the bin in every dimension, weighted in proportion to the content of that same bin (also with empty bins, whole-number counts, and different numbers of bins per dimension); '
     'its default kernel has the mean bin width of each dimension as its standard deviation in that dimension and no correlation. Every other bandwidth the constructor accepts, and every further argument of it (by keyword or by position), means what it means there.',
     ['inputs', 'configurations'], 'all bin edges, counts, dimensions and constructor arguments', 'Tests compare one- and two-dimensional histograms with equal bins and a default bandwidth.',
     [KDE], [('from_hist', KDE + ':KDE.from_hist')],
     technique='value graph of the KDE of the histogram against that of its weighted bin centres',
     note='One to three dimensions; bandwidths: default, number, vector, list, matrix, names, None.')

# ------------------------------------------------------------------ not claimed
prop('N01', 'Resampled points are statistically consistent with the data',
     'Large resamples of a KDE reproduce the distribution, correlations and marginals of the estimated density, and converge to it with the expected statistical error.',
     ['inputs', 'histories'], 'all data and seeds', 'Statistical tests on fixed seeds only sample this.', [KDE, KER],
     [('resample', KER + ':Kernel.resample')], claim=False,
     reason='Convergence of random samples is a statement about runtime distributions; only the composition of a sample from its draws is visible in the source, and that part is claimed as P07, P08 and P10.')
prop('N02', 'Floating point evaluation stays accurate for extreme dynamic range',
     'Densities, norms and inverses stay accurate and finite when variances differ by many orders of magnitude, or a warning is given.',
     ['inputs'], 'all covariance matrices', 'Tests use well-conditioned matrices.', [KDE, KER, UTI],
     [('dynamic range warning', KDE + ':KDE._finalize'), ('svd fallback', UTI + ':matrix_invert')], claim=False,
     reason='Rounding error and conditioning depend on runtime magnitudes; no static error bound is in reach for LAPACK calls on arbitrary matrices.')
prop('N03', 'The pdf integrated over its evaluation grid is one',
     'The numerical integral of the pdf over the automatic grid is one within the truncation and trapezoid error.',
     ['inputs'], 'all data', 'Tests check a few seeds.', [KDE, UTI],
     [('grid resolution', UTI + ':_guess_edges')], claim=False,
     reason='The size of truncation and quadrature error is a runtime quantity; the exact ingredients (kernel normalisation, sum, extent of the grid) are claimed as P05, P09, P16 and P19.')
prop('N05', 'Evaluation scales linearly in points and data, without large temporaries',
     'Density evaluation of M points with N data takes time proportional to M times N and memory proportional to M plus N.',
     ['inputs'], 'all sizes', 'Performance tests only time a few sizes.', [KER], [('numba loop', KER + ':_evaluate_numba')], claim=False,
     reason='Time and memory use are runtime quantities; not decidable from the source by the analyses used here.')
prop('N06', 'Interpolated grid samples follow the linear density inside each bin',
     'With interpolation, positions inside a bin are distributed as the linear density implied by the corner values of that bin.',
     ['inputs'], 'all grids', 'Tests use smooth densities where the effect is small.', [SAM],
     [('in-bin interpolation', SAM + ':_intrabin_linear_interp, Sample_Grid.sample')], claim=False,
     reason='The in-bin law is a runtime distribution; only the containment in the bin and the index pairing are claimed (P17).')


# method of the checks whose first plan was replaced while building
METHOD = {
    'P02': ('two-run non-interference on abstract interpretations: value graph of a call in a fresh process against the same call after an unrelated one',
            'Every write to module state, default arguments, class attributes and memo tables is kept in the abstract state between the two calls; results and drawn items must have equal value numbers. Library models as for P01.'),
    'P04': ('equivariance of value graphs: the graph of the result under the inputs and under the same inputs in other units and from another origin',
            'The value graph of the result is derived from the source once; for four choices of units and origin per dimension (scales from 1e-5 to 1e5) each cell is related to the same cell in the original units, in extended precision when they seem to differ. Random and boundary-directed valuations, not a proof.'),
    'P07': ('abstract interpretation to value graphs; the drawing loop as a transition system with an inductive invariant (every filled cell is inside); push-forward of the laws of the variates',
            'The invariant is checked from arbitrary loop states; the law of the returned points is integrated over a low-discrepancy set on the value graph and compared with the mixture. Exact numbers of points are proved; the law is decided up to about 0.03 in probability.'),
    'P08': ('abstract interpretation to value graphs and push-forward of the laws of the variates through them',
            'Choice of the data point, pairing of coordinates, covariance and radial law are decided by integrating the value graph over a low-discrepancy set of the variates; independence and sizes are decided on the graph itself.'),
    'P10': ('abstract interpretation to value graphs and push-forward of the laws of the variates through them',
            'Radial law compared with the exact law of the kernel (resolution about 0.02 in probability), direction and independence on the graph. A sampler that needs variates of an unmodelled law is undecided.'),
    'P14': ('value numbering of the cdf against its definition: density on the grid, cumulative trapezoid integral, normalisation, interpolation and treatment outside of the grid',
            'Decides what is integrated, normalised and interpolated and what is returned outside of the grid; linear interpolation itself is scipy\'s.'),
    'P17': ('abstract interpretation to value graphs and push-forward of the laws of the variates through them, on grids with unequal bins',
            'Probability of every bin, containment in its edges, scalar of the same bin, number of samples, for 1 to 3 dimensions, given and trapezoid masses with and without empty bins. The law inside a bin is not claimed (N06).'),
    'P18': ('abstract interpretation to value graphs: partition of the bins by the threshold, centroids and weights per valuation, push-forward for the sampled bins',
            'Decides the partition, the pairing of positions and weights, the counts (also for masses equal to the threshold) and the law of the sampled bins.'),
    'P19': ('value graphs of the generated edges, end points of every dimension compared with the data, the bandwidth and the request',
            'End points, monotony and pass-through of explicit edges over all forms of extrema and reflect, 1 to 3 dimensions, few effective points included.'),
    'P21': ('abstract interpretation of the plotting functions up to the drawing calls; units, locality and values of everything drawn, per panel',
            'Each drawn array is related to the data of the dimension of its axis: it must follow a change of units of that dimension and no other. Limits, scales, edges, quantiles and weights are read from the recorded drawing calls. matplotlib itself is a recorder model.'),
    'P20': ('value numbering of the weighted quantile against its definition', 'Exact for symbolic values and weights, one- and two-dimensional input.'),
}
for _k, _v in METHOD.items():
    _c = TECH[_k]
    TECH[_k] = (_c[0], _c[1], _v[0], _v[1])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        claim, reason, technique, note = TECH[p['id']]
        implemented = os.path.exists(os.path.join(HERE, 'sa', 'checks', p['id'].lower() + '.py'))
        if claim and implemented:
            checks.append(dict(property=p['id'], quick_cmd=f'python3-vt check.py {p["id"]}',
                               thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {p["id"]}',
                               evidence_file=f'evidence/{p["id"]}.json', technique='static analysis: ' + technique, level='other', level_note=note))
        else:
            na.append(dict(property=p['id'], reason=reason or 'No check for this property yet.'))
    man = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
