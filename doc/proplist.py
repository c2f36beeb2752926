TECH = 'static analysis: interprocedural gated value numbering (abstract dataflow) over the type-checked AST of %s, compared in normal form with %s'
NOTE = 'Every obligation is decided for an arbitrary symbolic state and arbitrary arguments (no bound on history length); inconclusive obligations are counted in the evidence and never reported as violations. Exact arithmetic; %s.'

p('C10', 'Rolling statistics describe exactly the last N samples',
  'With a window length N fixed at construction, every rolling statistic (window contents, count, sum, mean, moments, variance) at any time equals that statistic of exactly the min(k, N) most recent of the k samples pushed so far, oldest first. The result is the same whichever variant (lazy or immediate) was requested and whichever other statistics are in the set.',
  ['inputs', 'histories', 'configurations'], 'every N >= 1, every sample sequence of any length, every combination of rolling statistics in one set',
  'Tests push a dozen fixed values through one window length; the eviction boundary (k = N, N+1, N = 1, repeated or equal samples) and long histories are not covered.',
  [ST + 'rolling_window.hpp', ST + 'rolling_count.hpp', ST + 'rolling_sum.hpp', ST + 'rolling_mean.hpp', ST + 'rolling_moment.hpp', ST + 'rolling_variance.hpp'],
  [('window of N+1 samples', ST + 'rolling_window.hpp rolling_window_plus1_impl'), ('incremental update on eviction', ST + 'rolling_sum.hpp, rolling_mean.hpp, rolling_moment.hpp, rolling_variance.hpp operator()')],
  [('buffer', 'last N+1 samples', ST + 'rolling_window.hpp'), ('running sums', 'statistic of the window', ST + 'rolling_*.hpp')],
  ['rolling_window, rolling_count, rolling_sum, rolling_mean, rolling_moment, rolling_variance extractors'],
  TECH % ('instantiated rolling sets', 'window equations between extractor values before and after one update'), NOTE % 'window length at least 1')

p('C13', 'Integral samples and weights give exact, untruncated statistics',
  'When samples (and weights) have an integral type, every statistic that is a quotient or average is computed in floating point and equals its mathematical value; no intermediate or final result is truncated to an integer or narrowed to a smaller type.',
  ['inputs', 'configurations'], 'every integral sample and weight value, every statistic with an average or quotient, mixed integral/floating weights',
  'Tests use integral samples in a few places, mostly with values for which truncation happens not to show.',
  ['include/boost/accumulators/numeric/functional.hpp', ST + 'mean.hpp', ST + 'moment.hpp', ST + 'variance.hpp', ST + 'covariance.hpp', ST + 'skewness.hpp', ST + 'kurtosis.hpp', ST + 'weighted_mean.hpp', ST + 'weighted_moment.hpp', ST + 'weighted_variance.hpp', ST + 'rolling_mean.hpp'],
  [('floating division of integral operands', 'include/boost/accumulators/numeric/functional.hpp fdiv'), ('result types', ST + '*.hpp result_type')],
  [], ['all extractors of sets with int samples or weights'],
  TECH % ('sets with int samples/weights', 'the defining equations; integer division and narrowing are distinct operators'), NOTE % 'overflow of the sample type outside the property')

p('C15', 'Unweighted statistics equal their defining formulas for every history',
  'After any non-empty sequence of samples, count, sum, mean (both variants), raw moments, variance (both variants), skewness, excess kurtosis, error of the mean, sums and means of variates and covariance equal their textbook (population) definitions over all samples pushed so far. Each sample contributes exactly once, and an empty set has count and sums equal to zero.',
  ['inputs', 'histories'], 'every sample type value and every sequence length',
  'Tests check a handful of 3-5 element sequences to loose tolerances; recurrences wrong only at the first sample, for later samples, or for particular values slip through.',
  [ST + 'count.hpp', ST + 'sum.hpp', ST + 'mean.hpp', ST + 'moment.hpp', ST + 'variance.hpp', ST + 'skewness.hpp', ST + 'kurtosis.hpp', ST + 'error_of_mean.hpp', ST + 'covariance.hpp'],
  [('recurrence per sample', ST + '*.hpp operator()'), ('closed form on extraction', ST + '*.hpp result')],
  [('count, sums, running means', 'sufficient statistics of the history', ST + '*.hpp')], ['count, sum, mean, moment, variance, skewness, kurtosis, error_of, covariance extractors'],
  TECH % ('unweighted sets', 'defining equations relating extractor values before and after one update (induction step and base)'), NOTE % 'rounding outside the property')

p('C16', 'Weighted statistics equal their weighted defining formulas for every history',
  'In a set with a weight type, sum, mean (both variants), raw moments, variance (both variants), skewness, excess kurtosis, sums and means of variates and covariance equal their weighted definitions over all (sample, weight) pairs pushed so far; count counts pairs, and the sum and mean of the weights equal those of the weights alone. Every pair contributes exactly once with exactly its own weight.',
  ['inputs', 'histories'], 'every sequence of samples and positive weights',
  'Tests use a few short sequences, several with all weights equal, in which using the wrong weight is invisible.',
  [ST + 'weighted_sum.hpp', ST + 'weighted_mean.hpp', ST + 'weighted_moment.hpp', ST + 'weighted_variance.hpp', ST + 'weighted_skewness.hpp', ST + 'weighted_kurtosis.hpp', ST + 'weighted_covariance.hpp', ST + 'sum.hpp', ST + 'mean.hpp'],
  [('weighted recurrences', ST + 'weighted_*.hpp operator()'), ('sum of weights', ST + 'sum.hpp sum_of_weights')],
  [], ['extractors of sets with a weight type'],
  TECH % ('weighted sets', 'weighted defining equations relating extractor values before and after one update'), NOTE % 'positive weights; rounding outside the property')

p('C01', 'Archiving a set and restoring it preserves every statistic',
  'Saving an accumulator set to an archive and loading it into a newly constructed set of the same type (constructed with the same parameters) reproduces every statistic of the original, and the restored set continues accumulating exactly as the original would: every extractor gives the same value then and after any further samples. Saving does not change the set, and loading reads back exactly the items that saving wrote, in the same order.',
  ['inputs', 'histories', 'configurations'], 'every set of statistics, every history before saving, every continuation after loading',
  'Tests archive a few sets after a few samples and compare a single extractor; a field that matters only for later samples, or only in some phase of an algorithm, is not noticed when it is left out.',
  [FW + 'accumulator_set.hpp', FW + 'depends_on.hpp', FW + 'accumulator_base.hpp', 'include/boost/accumulators/accumulators_fwd.hpp', ST + '*.hpp (serialize)'],
  [('serialize of every accumulator', ST + '*.hpp serialize'), ('walk over the cons list', FW + 'accumulator_set.hpp serialize_accumulators')],
  [('every data member', 'part of the archived state', ST + '*.hpp')], ['accumulator_set::serialize, extractors before saving and after loading'],
  TECH % ('some 250 sets', 'a field-by-field (else observation-by-observation) comparison of the restored state with the saved one'), NOTE % 'archives that return what was written')

p('C04', 'Extracting a result is a pure observation',
  'Extracting any result, any number of times and in any order, changes neither what this nor any other extractor of the same set returns nor how the set continues accumulating; lazily computed and cached results are never stale after further samples arrive. An extractor without parameters gives the same value when it is called twice in a row.',
  ['inputs', 'histories', 'schedules'], 'every interleaving of updates and extractions in every set of statistics',
  'Tests extract once after all samples have been pushed; interleaved extraction, which drives the dirty flags and in-place sorting of the cached tails, is not sampled.',
  [ST + 'tail.hpp', ST + 'peaks_over_threshold.hpp', ST + 'weighted_peaks_over_threshold.hpp', ST + 'density.hpp', ST + 'weighted_density.hpp', ST + 'median.hpp', ST + 'tail_variate_means.hpp', ST + 'p_square_cumul_dist.hpp', FW + 'extractor.hpp'],
  [('dirty flags of cached results', ST + '*.hpp is_dirty'), ('sorting of the cache on extraction', ST + 'tail.hpp')],
  [('is_dirty, is_sorted', 'cached result is out of date', ST + '*.hpp')], ['every extractor, before and after another extraction and another sample'],
  TECH % ('some 250 sets', 'the same observation without the preceding extraction'), NOTE % 'differences have to show in a state consistent with the extracted update function')

p('C18', 'Copies of a set are exact and independent',
  'A copy-constructed or assigned accumulator set reports the same statistics as its source, continues accumulating identically, and is independent of it: updating or destroying one never changes or invalidates the other. Copying leaves the source unchanged.',
  ['inputs', 'histories'], 'every set of statistics, every state of source and target',
  'Tests hardly ever copy a set; a copy that shares, skips or resets one member of one accumulator shows only after further updates of one of the two.',
  [FW + 'accumulator_set.hpp', FW + 'depends_on.hpp', ST + '*.hpp (copy constructors and data members)', FW + 'accumulators/droppable_accumulator.hpp'],
  [('member-wise copy', ST + '*.hpp'), ('copy constructor of tail', ST + 'tail.hpp tail_impl(tail_impl const&)')],
  [], ['extractors of the copy and of the source, before and after updates of either'],
  TECH % ('some 250 sets', 'a field-by-field (else observation-by-observation) comparison of copy and source'), NOTE % 'assignment targets are arbitrary')

p('C03', 'Every push reaches every accumulator exactly once, dependencies first, with exactly the arguments given',
  'One call of an accumulator set updates every accumulator of the set, whether requested or pulled in as a dependency, exactly once, with exactly the sample, weight and named arguments of that call (none lost, swapped or left over from an earlier call), and each accumulator after every accumulator it depends on. This holds for every order, grouping, redundancy and variant choice in which the features are requested; visiting the set meets each accumulator exactly once, and a feature requested more than once, or both directly and as a dependency, exists once.',
  ['configurations', 'inputs'], 'every set of features over every acyclic dependency graph, with and without weights, every number of named arguments',
  'Tests use a fixed handful of sets; an ordering or deduplication mistake in the type-level sort, or a lost argument of one particular arity, shows only for particular graphs and arities.',
  [FW + 'accumulator_set.hpp', FW + 'depends_on.hpp', FW + 'features.hpp', FW + 'accumulator_concept.hpp', FW + 'accumulators/external_accumulator.hpp'],
  [('dependency closure and topological order of features', FW + 'depends_on.hpp build_acc_list, topo_sort'), ('forwarding of the arguments', FW + 'accumulator_set.hpp operator()')],
  [('accumulators', 'cons list in dependency order', FW + 'accumulator_set.hpp')], ['probe accumulators that record each call; accumulator_set::operator(), visit, visit_if'],
  TECH % ('sets of probe accumulators', 'the recorded calls demanded by the set of features'), NOTE % 'up to 15 named arguments')

p('C06', 'Dropping a feature freezes it, and only what nobody else needs any more',
  'A droppable feature behaves exactly like the plain feature until it is dropped. After drop<F>, F goes on being updated as long as some other feature of the set that depends on it, directly or indirectly, was not dropped; from the moment on when none is left, F is updated no more: every further sample leaves all that F itself keeps exactly as it was, so its result changes only as far as it is computed from features that other requested features keep alive. The same holds for the features that F depends on and that nobody else needs. All other statistics of the set are unaffected by the drop. This holds for every order of drops of requested droppable features, each dropped once.',
  ['configurations', 'histories', 'schedules'], 'every set of droppable features, every interleaving of samples and drops',
  'Tests drop one or two features of one set in one order; reference counts that are wrong for shared, repeated or indirect dependencies are not reached.',
  [FW + 'accumulators/droppable_accumulator.hpp', FW + 'accumulator_set.hpp', FW + 'depends_on.hpp', ST + 'tail.hpp'],
  [('reference count of each droppable accumulator', FW + 'accumulators/droppable_accumulator.hpp'), ('drop walks the dependencies', FW + 'accumulator_set.hpp drop')],
  [('ref_count_', 'number of live users', FW + 'accumulators/droppable_accumulator.hpp')], ['extractors of droppable features before and after drops and samples'],
  TECH % ('sets of droppable probes and statistics', 'the update behaviour of the plain features'), NOTE % 'sequences of up to three drops')

p('C08', 'External, reference and value accumulators give exactly the named object',
  'An external accumulator gives, for every extraction, exactly the result of the named feature of the set that was passed with the named key, and never touches it; reference and value accumulators give exactly the object passed under their key, by reference or by value, also when several of them with different keys are in one set. Weights held externally are the weights used by the statistics that depend on them.',
  ['configurations', 'inputs'], 'every combination of keys, external features and positions in the set',
  'Tests use one external weight set and one reference; several of a kind, with different keys, are never in the same set.',
  [FW + 'accumulators/external_accumulator.hpp', FW + 'accumulators/reference_accumulator.hpp', FW + 'accumulators/value_accumulator.hpp', FW + 'external.hpp', ST + 'sum.hpp'],
  [('lookup by key', FW + 'accumulators/external_accumulator.hpp'), ('stored reference', FW + 'accumulators/reference_accumulator.hpp'), ('stored value', FW + 'accumulators/value_accumulator.hpp')],
  [], ['extractors of external features, reference_tag, value_tag'],
  TECH % ('sets with external, reference and value features', 'the value number of the object named by the key'), NOTE % 'the object named outlives the set')

p('C14', 'min and max are the least and greatest sample pushed so far',
  'After any non-empty sequence of samples of any arithmetic type, with or without weights, min equals the smallest and max the largest sample pushed so far (not merely a bound of it, and whatever the order, sign or weight of the samples); on an empty set they are the identities of the type, so that the first sample always replaces them.',
  ['inputs', 'histories'], 'every arithmetic sample type, every sequence of samples, every weight',
  'Tests push a few small positive values in one order.',
  [ST + 'min.hpp', ST + 'max.hpp', 'include/boost/accumulators/numeric/functional.hpp'],
  [('update by comparison', ST + 'min.hpp, ' + ST + 'max.hpp operator()'), ('identity of the type', 'include/boost/accumulators/numeric/functional.hpp as_min, as_max')],
  [('min_, max_', 'extreme sample so far', ST + 'min.hpp')], ['min, max'],
  TECH % ('min/max sets of all arithmetic types', 'gated minimum/maximum and identity of the type'), NOTE % 'samples are not NaN')

p('C17', 'Kahan sums compensate the rounding error of every addition',
  'The compensated sums (sum, weighted sum, sums of variates and of weights, each with kahan) equal the plain sum in exact arithmetic for every history, and to first order in the rounding unit the error of each single addition is recovered by the compensation term of the following one, so that the total error does not grow with the number of samples: the rounding error of running sum plus compensation per sample is bounded by that of the sample alone.',
  ['inputs', 'histories'], 'every sequence of samples',
  'A test adds one million small numbers; a compensation that is lost for some samples, or reset, still passes.',
  [ST + 'sum_kahan.hpp', ST + 'weighted_sum_kahan.hpp'],
  [('compensation term', ST + 'sum_kahan.hpp operator()')], [('compensation', 'negated rounding error of the last addition', ST + 'sum_kahan.hpp')], ['sum_kahan, weighted_sum_kahan and variants'],
  'static analysis: abstract interpretation of the update with one symbolic relative error per floating-point operation; first-order coefficients compared in normal form', NOTE % 'round-to-nearest model, first order in the rounding unit')

p('C19', 'Named parameters reach every constructor and every extractor unchanged',
  'All named parameters given when a set is constructed reach the constructor of every accumulator of the set, and all named parameters given with a sample or an extraction reach every accumulator and the extractor concerned, with exactly the values given, whatever their number and order; a parameter that is not given takes its documented default, and never the value of another one.',
  ['configurations', 'inputs'], 'every number of parameters from none to the maximum, every accumulator of a set, every order',
  'Tests pass at most three parameters to any one set.',
  [FW + 'accumulator_set.hpp', FW + 'extractor.hpp', FW + 'parameters/accumulator.hpp', FW + 'parameters/sample.hpp', FW + 'parameters/weight.hpp', FW + 'parameters/weights.hpp', FW + 'accumulators/droppable_accumulator.hpp'],
  [('constructor, call and extractor overloads for each arity', FW + 'accumulator_set.hpp, ' + FW + 'extractor.hpp')],
  [], ['probe accumulators and extractors that report every parameter they see'],
  TECH % ('sets of probe accumulators for every arity', 'the arguments of the witness function'), NOTE % 'up to 15 parameters')

REF = 'static analysis: refinement of a reference transformer; the update and extraction functions of the set and of the documented algorithm are extracted as value-number transformers from the type-checked AST, a relation between their states is inferred by fixpoint (Houdini) and shown inductive by comparison of normal forms; reports carry the diverging observation of the two extracted transformers'

p('C02', 'What a feature reports does not depend on what else is in the set',
  'For every feature and every history, the value extracted is the same whether the feature is requested alone or together with any other features, in whichever order they are listed, as long as no two of them provide the same feature: dependencies shared with other features, their order of update, their parameters and their extractions never influence it.',
  ['configurations', 'histories', 'inputs'], 'every feature, the combinations listed in sa/checks/compose.py (features that share dependencies, before and after), every history',
  'Tests instantiate features alone or in one fixed combination, so wrong update orders, dependencies that are missing but happen to be present, and clashing state or parameters do not show.',
  [FW + 'depends_on.hpp', FW + 'accumulator_set.hpp', ST + '*.hpp (depends_on lists, feature_of)'],
  [('dependency closure and ordering', FW + 'depends_on.hpp'), ('feature identity', ST + '*.hpp feature_of')],
  [], ['every extractor'], REF.replace('the documented algorithm', 'the set with the feature alone'), NOTE % 'one known finding: the means of two different variates')

p('C09', 'A tail holds exactly the most extreme samples, with their own weights and variates',
  'With cache size c, after any sequence of k samples the tail (left or right) contains exactly the min(k, c) smallest (left) or largest (right) samples pushed so far, sorted from the most extreme one on; tail_weights and tail_variate list, at the same position, the weight and the variate that were pushed together with that sample. Which of several equal samples is kept is not specified.',
  ['inputs', 'histories'], 'every cache size of at least one, every sequence of samples, weights and variates, every interleaving with extractions',
  'Tests push a few samples into a cache of one size and extract once; the replacement of the least extreme element, the index permutation it induces in the companion caches, and a cache that is not full are hardly sampled.',
  [ST + 'tail.hpp', ST + 'tail_variate.hpp', ST + 'tail_fwd.hpp'],
  [('replacement of the least extreme sample, sorted index vector', ST + 'tail.hpp tail_impl::operator()'), ('companion caches', ST + 'tail.hpp assign_visitor, ' + ST + 'tail_variate.hpp')],
  [('indices, samples', 'sorted positions and cached samples', ST + 'tail.hpp')], ['tail, tail_weights, tail_variate'], REF, NOTE % 'distinct samples where weights or variates are observed')

p('C23', 'P-square quantiles follow the published algorithm',
  'From the fifth sample on, p_square_quantile (for the probability given, one half by default), its median variant, and the default median, with or without weights, equal for every history the estimate that the P-square algorithm of Jain and Chlamtac (in the weighted form documented in weighted_p_square_quantile.hpp) gives for the same samples.',
  ['inputs', 'histories'], 'every probability between 0 and 1 and every sequence of at least five samples and positive weights',
  'Tests compare the estimate with the true quantile of thousands of random numbers to a loose tolerance; a wrong marker adjustment in one of the branches remains inside the tolerance.',
  [ST + 'p_square_quantile.hpp', ST + 'weighted_p_square_quantile.hpp', ST + 'median.hpp', ST + 'weighted_median.hpp'],
  [('marker update', ST + 'p_square_quantile.hpp, ' + ST + 'weighted_p_square_quantile.hpp operator()')],
  [('heights, actual_positions, desired_positions, positions_increments', 'the five markers', ST + 'p_square_quantile.hpp')], ['p_square_quantile, p_square_quantile_for_median, median, weighted forms'], REF, NOTE % 'fewer than five samples are outside the property')

p('C24', 'density is the histogram of the samples over bins fixed by the first ones',
  'With cache size c and n bins, from the c-th sample on density equals the histogram with n equal bins between the smallest and the largest of the first c samples plus an underflow and an overflow bin: each entry is the lower bin position and the fraction of all samples (of the total weight, in a weighted set) that falls into the bin, for every history; every sample is counted exactly once. The median computed from it is the linear interpolation of this histogram at one half.',
  ['inputs', 'histories'], 'every c, n and sequence of at least c samples and positive weights',
  'Tests compare a density of thousands of samples with a normal distribution to a loose tolerance and only once; samples on bin borders, out of range, or arriving between two extractions are not checked.',
  [ST + 'density.hpp', ST + 'weighted_density.hpp', ST + 'median.hpp', ST + 'weighted_median.hpp'],
  [('binning of cached and later samples', ST + 'density.hpp, ' + ST + 'weighted_density.hpp operator()'), ('median from the histogram', ST + 'median.hpp, ' + ST + 'weighted_median.hpp')],
  [('cache, samples_in_bin, bin_positions, histogram, is_dirty', 'histogram state', ST + 'density.hpp')], ['density, with_density_median, weighted forms'], REF, NOTE % 'fewer than c samples are outside the property (documented precondition); median inside the regular bins')

p('C25', 'extended_p_square follows the extended P-square algorithm',
  'For probabilities p1 < ... < pm, from sample number 2m+3 on extended_p_square, with or without weights, gives for every history the m marker heights that the extended P-square algorithm (with the 2m+3 markers, and the weighted update, described in the headers) gives for the same samples, in the order of the probabilities.',
  ['inputs', 'histories'], 'every strictly increasing list of probabilities and every sequence of samples and positive weights',
  'Tests compare estimates for thousands of uniform random numbers with the true quantiles to a loose tolerance.',
  [ST + 'extended_p_square.hpp', ST + 'weighted_extended_p_square.hpp'],
  [('marker update', ST + 'extended_p_square.hpp, ' + ST + 'weighted_extended_p_square.hpp operator()')],
  [('heights, actual_positions, desired_positions, positions_increments', 'the 2m+3 markers', ST + 'extended_p_square.hpp')], ['extended_p_square'], REF, NOTE % 'start-up phase outside the property')

p('C26', 'Peaks over threshold: fit, quantile and tail mean follow the method of moments',
  'peaks_over_threshold (threshold given as value or as probability, left or right tail, with or without weights) gives for every history and at every time the parameters of the generalized Pareto distribution fitted by the documented moment formulas to exactly the samples beyond the threshold; pot_quantile and pot_tail_mean evaluate that fit at the requested probability.',
  ['inputs', 'histories'], 'every threshold or threshold probability, every sequence of samples and positive weights, every interleaving with extraction, every probability level',
  'Tests fit tens of thousands of random numbers to wide tolerances, and extract once.',
  [ST + 'peaks_over_threshold.hpp', ST + 'weighted_peaks_over_threshold.hpp', ST + 'pot_quantile.hpp', ST + 'pot_tail_mean.hpp'],
  [('moments of the exceedances', ST + 'peaks_over_threshold.hpp, ' + ST + 'weighted_peaks_over_threshold.hpp'), ('evaluation of the fit', ST + 'pot_quantile.hpp, ' + ST + 'pot_tail_mean.hpp')],
  [('Nu_, mu_, sigma2_, fit_parameters_, is_dirty_', 'moments and cached fit', ST + 'peaks_over_threshold.hpp')], ['peaks_over_threshold, pot_quantile, pot_tail_mean'], REF, NOTE % 'histories in which the fit is defined (two or more different exceedances)')

p('C27', 'p_square_cumulative_distribution follows the P-square histogram algorithm',
  'With n cells, from sample number n+1 on p_square_cumulative_distribution, with or without weights, gives for every history the n+1 pairs of marker height and fraction of samples (or weight) of the P-square histogram algorithm as documented in the headers; the median computed from it is its linear interpolation at one half.',
  ['inputs', 'histories'], 'every number of cells and every sequence of samples and positive weights',
  'Tests compare estimates for thousands of normal random numbers with the true distribution to a loose tolerance.',
  [ST + 'p_square_cumul_dist.hpp', ST + 'weighted_p_square_cumul_dist.hpp', ST + 'median.hpp', ST + 'weighted_median.hpp'],
  [('marker update', ST + 'p_square_cumul_dist.hpp, ' + ST + 'weighted_p_square_cumul_dist.hpp operator()')],
  [('heights, actual_positions, desired_positions, positions_increments, histogram', 'the n+1 markers', ST + 'p_square_cumul_dist.hpp')], ['p_square_cumulative_distribution, with_p_square_cumulative_distribution_median, weighted forms'], REF, NOTE % 'start-up phase outside the property')

p('C28', 'Tail quantiles, tail means and tail variate means are the empirical ones of all samples',
  'For probability p, with n the number of samples in the tail at level p out of all k samples pushed (the accumulated weight, in a weighted set), tail_quantile gives the n-th most extreme sample, non_coherent_tail_mean the mean of the n most extreme samples, coherent_tail_mean its documented coherent correction, and the absolute and relative tail variate means those of the variates pushed with these samples (relative: divided by the non-coherent tail mean); the weighted forms use the weights. When the cache is too small for p the result is NaN (an exception, where the sample type has no NaN) and never a number.',
  ['inputs', 'histories'], 'every cache size, every probability, every sequence of samples, weights and variates, every order of extraction',
  'Tests use one cache size, two or three probabilities and one extraction at the end.',
  [ST + 'tail_quantile.hpp', ST + 'tail_mean.hpp', ST + 'tail_variate_means.hpp', ST + 'weighted_tail_quantile.hpp', ST + 'weighted_tail_mean.hpp', ST + 'weighted_tail_variate_means.hpp'],
  [('number of samples in the tail', ST + 'tail_quantile.hpp, ' + ST + 'tail_mean.hpp'), ('accumulation of weights', ST + 'weighted_tail_quantile.hpp, ' + ST + 'weighted_tail_mean.hpp')],
  [('tail_means_', 'result buffer', ST + 'tail_variate_means.hpp')], ['quantile, tail_mean, non_coherent_tail_mean, tail_variate_means, relative_tail_variate_means, weighted forms'], REF, NOTE % 'distinct samples where weights or variates matter')

p('C07', 'Weights mean what they say: one is no weight, three is three samples, the unit is irrelevant',
  'A set with a weight type in which every sample is pushed with weight one reports, for every feature available in both kinds of set, exactly what the set without weights reports for the same samples. For count-like, sum, mean, moment, variance, skewness, kurtosis, covariance, variate-mean and extremal statistics (other than the number of samples), pushing a sample once with an integral weight equals pushing it that many times without. Means, moments, variances, skewness, kurtosis, covariance, density, tail quantiles, tail means and peaks-over-threshold fits do not change when all weights are multiplied by the same positive factor.',
  ['inputs', 'histories', 'configurations'], 'every feature with a weighted counterpart, every sequence of samples and weights',
  'Tests compare weighted features with constants computed for one sequence; no test relates the two implementations.',
  [ST + 'weighted_*.hpp', ST + 'sum.hpp', FW + 'depends_on.hpp', FW + 'accumulator_set.hpp'],
  [('substitution of weighted accumulators', FW + 'depends_on.hpp as_weighted_feature'), ('weighted recurrences', ST + 'weighted_*.hpp')],
  [], ['every extractor of weighted and unweighted sets'], REF.replace('the documented algorithm', 'the unweighted (or differently weighted) set'), NOTE % 'tail_quantile where the cache holds one sample more than the rank (the unweighted form asks for that)')

p('C29', 'extended_p_square_quantile interpolates the extended P-square markers',
  'For a probability between the first and the last of the given probabilities, extended_p_square_quantile (linear or quadratic, with or without weights) equals the marker height if the probability is one of those given, and otherwise the value at that probability of the line through the two neighbouring markers, or of the parabola through the three nearest ones; outside the range the result is NaN and never a number.',
  ['inputs', 'histories'], 'every list of probabilities (at least three for the quadratic form), every probability level, every sequence of samples and positive weights',
  'Tests interpolate at two or three levels for one list of probabilities, to a loose tolerance.',
  [ST + 'extended_p_square_quantile.hpp'],
  [('choice of the neighbours, interpolation', ST + 'extended_p_square_quantile.hpp result')],
  [('probabilities', 'the levels of the markers', ST + 'extended_p_square_quantile.hpp')], ['quantile of sets with extended_p_square_quantile'], REF, NOTE % 'start-up phase outside the property; six of eight obligations have an inductive relation, the other two are compared along histories of the extracted transformers')

NF = 'include/boost/accumulators/numeric/'
p('C20', 'Vectors and valarrays are treated element by element',
  'For samples or variates that are std::vector or std::valarray of one fixed length, sum, mean (both variants), min, max, moments, variance (both variants), and sums and means of variates, with or without weights, are the vector whose k-th element is that statistic of the k-th elements. The operations of boost::numeric on them (plus, minus, multiplies, divides, fdiv, unary_minus, plus_assign, min_assign, max_assign, promote, as_min, as_max, as_zero, as_one, with vector and scalar operands, of the same or different element types) give a container of the same length, computed element by element in the type that the scalar operation has.',
  ['inputs', 'histories', 'configurations'], 'every length, every element value, every position, int and double elements, every history',
  'Tests push two or three vectors of two or three elements; only some of the operators are instantiated, with operands for which a wrong position, length or truncated type does not show.',
  [NF + 'functional.hpp', NF + 'functional/vector.hpp', NF + 'functional/valarray.hpp'],
  [('elementwise operators', NF + 'functional/vector.hpp, ' + NF + 'functional/valarray.hpp'), ('min/max/plus assignment, promotion, limits', NF + 'functional.hpp')],
  [], ['boost::numeric functions, extractors of sets with vector or valarray samples'], REF.replace('the documented algorithm', 'the scalar statistic of element k').replace('a relation between their states', 'a relation (element k of the container = the scalar state)'), NOTE % 'operands of equal length')

p('C22', 'Accumulator sets are independent of each other and own their state',
  'What one accumulator set (or copy of one) reports depends only on what was pushed into that object: no accumulator or extractor keeps mutable state in variables with static storage, and no accumulator holds a reference, pointer, iterator or shared handle to storage outside itself (except value<>/reference<> accumulators asked for by the user). Several sets, and copies of a set, can therefore be used side by side, or from different threads, without influencing each other.',
  ['schedules', 'histories', 'configurations'], 'every feature, every number of sets alive at the same time, every interleaving of their use',
  'Tests use one set at a time; a buffer shared by all sets gives the right values as long as they are used one after the other.',
  [ST + '*.hpp', FW + 'accumulator_set.hpp', FW + 'extractor.hpp', 'include/boost/accumulators/numeric/functional.hpp'],
  [('state held by value', ST + '*.hpp members'), ('extractor and keyword objects', FW + 'extractor.hpp, ' + FW + 'parameters/*.hpp')],
  [('every data member', 'state of one set', ST + '*.hpp')], ['all extractors'],
  'static analysis: ownership inventory over the type-checked AST: every variable with static storage declared in any header (templates and function bodies included) is constant or stateless; every member of every instantiated accumulator, transitively through bases, is held by value',
  'Standard containers and Boost containers are taken to own their elements; the view types that do not are listed in the check. No bound: the inventory is over all declarations of the headers and all instantiated accumulators of the catalogue.')

p('C21', 'Every spelling of a feature selects the documented implementation',
  'In stats<...>, tag::f, tag::f(modifier) and their droppable<> and error_of<> forms select exactly the documented implementation (mean(immediate) the immediate one, sum(kahan) the compensated one, variance(lazy) the lazy one, median(with_density) the density one, and so on); in a set with a weight type each selects the weighted counterpart of that implementation. Each variant is found under the feature it implements, and features that measure different things are never found under one another.',
  ['configurations'], 'every feature with variants, every modifier, weighted and unweighted sets, every pair of distinct features',
  'A wrong mapping still compiles and gives nearly the same numbers (lazy and immediate mean, plain and compensated sum); tests spell only some of the features.',
  [FW + 'features.hpp', FW + 'depends_on.hpp', ST + '*.hpp as_feature, as_weighted_feature, feature_of'],
  [('normalisation of features', FW + 'depends_on.hpp'), ('specialisations', ST + '*.hpp as_feature<>, as_weighted_feature<>, feature_of<>')],
  [], ['stats<> and find_accumulator'],
  'static analysis: type-level encoding: a witness program of static_assert statements on as_feature, feature_of and the accumulator that a set holds, decided by the type checker',
  'Exhaustive over the documented spellings; no bound on anything at run time, as nothing is run.')

p('C31', 'Misuse that would give a meaningless result is rejected when it is compiled',
  'A program does not compile if it extracts or drops a feature that the set does not contain, constructs a set without a required parameter (cache size, number of bins or cells, window length, threshold, probabilities), pushes a sample without the weight or the variate that a statistic of the set needs, extracts a quantile or tail mean without a probability, or assigns sets of different features. The same program with the omission corrected compiles.',
  ['configurations'], 'every pair of correct and incorrect program of the listed kinds, over the features concerned',
  'The test suite has no test that must fail to compile; accepting the misuse (with a default value, say) leaves all tests passing.',
  [FW + 'extractor.hpp', FW + 'accumulator_set.hpp', FW + 'accumulator_concept.hpp', FW + 'parameters/*.hpp', ST + '*.hpp'],
  [('look-up by feature', FW + 'accumulator_set.hpp find_accumulator'), ('named parameters without defaults', ST + '*.hpp constructors, operator(), result')],
  [], ['what the compiler accepts'],
  'static analysis: compile-fail witnesses: pairs of programs that differ in one misuse; the type checker must accept the one and reject the other',
  'Decided by the type checker; nothing is run.')
