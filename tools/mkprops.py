"""Regenerates properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               hook_needed=None)))


STREAM = ('every seeded model, delivered measurement history (drops, duplicates, delays, reordering, sensor faults), batch '
          'schedule, crash point and checkpoint-disk fault')

p('S01', '1-D moment filters equal the moment recursion on every delivered history',
  'For one-dimensional states, the filtering posteriors (moments, mean, scale) and the accumulated negative log-likelihood '
  'reported by the raw, central and scaled moment filters equal the order-N moment recursion (quadrature of the prior, '
  'propagated conditional moments, Bayes update) over the delivered measurements. This holds however the measurements are cut '
  'into batches, wherever the process is crashed and resumed from its last reported posterior, and whichever of the three '
  'representations it is in or is converted to on the way, with the stable option on or off.',
  ['histories', 'crash_points', 'schedules', 'inputs', 'configurations'], STREAM + '; orders N 2..6; every transition-moment '
  'factory (Euler, Normal-approximated and plain Taylor moment expansion, user-written); Gaussian, Student, Bernoulli, Poisson '
  'and vector measurements',
  'The tests run each filter once on one or two fixed models in one uninterrupted call and compare loosely with another '
  'approximation; they never resume, change batch boundaries or representation, or feed faulty measurement sequences.',
  ['mfs/one_dim/filtering.py', 'mfs/one_dim/quadtures.py', 'mfs/one_dim/moments.py', 'mfs/utils.py'],
  [('scan over measurements carrying moments, mean, scale, nell', 'mfs/one_dim/filtering.py'),
   ('moment quadrature', 'mfs/one_dim/quadtures.py:moment_quadrature'),
   ('conditional moment factories and representation changes', 'mfs/one_dim/moments.py')],
  ['returned moments, means, scales and negative log-likelihood'])

p('S02', 'N-D moment filters equal the moment recursion on every delivered history',
  'For multidimensional states, the joint moments, means, scales and negative log-likelihood reported by the raw, central and '
  'scaled moment filters equal the multidimensional moment recursion over the delivered measurements, for any batching and any '
  'crash and resume from the last reported posterior. The mean, covariance and marginal moments that a reader extracts from '
  'them agree with the same joint moments.',
  ['histories', 'crash_points', 'schedules', 'inputs', 'configurations'], STREAM + '; dimensions 2 and 3, orders 2 and 3, '
  'every transition-moment factory, state components without noise included',
  'The tests filter one 2-D model in one call; resumption, other dimensions, noise-free components, correlated noise and '
  'faulty sequences are not reached.',
  ['mfs/multi_dims/filtering.py', 'mfs/multi_dims/quadratures.py', 'mfs/multi_dims/moments.py',
   'mfs/multi_dims/multi_indices.py', 'mfs/utils.py'],
  [('scan over measurements', 'mfs/multi_dims/filtering.py'), ('operator quadrature', 'mfs/multi_dims/quadratures.py'),
   ('graded-lexicographic bookkeeping', 'mfs/multi_dims/multi_indices.py'), ('moment factories and extraction', 'mfs/multi_dims/moments.py')],
  ['returned moments, means, scales, negative log-likelihood, extracted statistics'])

p('S03', 'Gaussian filters equal the textbook recursion on every delivered history',
  'The means, covariances and running negative log-likelihoods of the Kalman, extended Kalman and sigma-point filters, in '
  'discrete and continuous-discrete form, equal the textbook recursion over the delivered measurements for every state and '
  'measurement dimension and every option, for any batching and any crash and resume from the last reported posterior. For '
  'linear models they equal exact Gaussian conditioning on all measurements received so far.',
  ['histories', 'crash_points', 'schedules', 'inputs', 'configurations'], STREAM + '; dx, dy in 1..3, state-dependent noise, '
  'both Jacobian modes, cubature and Gauss-Hermite points',
  'The tests use scalar measurements and fixed models in one call; vector measurements were broken (wrong gain and '
  'likelihood) without any test failing.',
  ['mfs/classical_filters_smoothers/gfs.py', 'mfs/classical_filters_smoothers/quadratures.py'],
  [('predict/update scan', 'mfs/classical_filters_smoothers/gfs.py'), ('sigma points and Runge-Kutta', 'mfs/classical_filters_smoothers/quadratures.py')],
  ['returned means, covariances, negative log-likelihoods'])

p('S04', 'Smoothers equal the reference backward pass, in one pass or resumed anywhere',
  'Given filtering results, every smoother (Rauch-Tung-Striebel, extended, sigma-point, continuous-discrete) returns the means '
  'and covariances of the corresponding backward recursion, ends exactly in the last filtering posterior, and gives the same '
  'answer when the backward pass is cut into chunks, crashed and resumed from any already smoothed time. For linear models the '
  'result equals exact Gaussian conditioning on all measurements.',
  ['histories', 'crash_points', 'schedules', 'inputs', 'configurations'], STREAM + ', and every cut of the backward pass',
  'The tests smooth once, uninterrupted, on one model per smoother.',
  ['mfs/classical_filters_smoothers/gfs.py', 'mfs/classical_filters_smoothers/quadratures.py'],
  [('reverse scan over filtering results', 'mfs/classical_filters_smoothers/gfs.py')], ['returned smoothing means and covariances'])

p('S05', 'Stable mode keeps probabilities when checkpointed moments are degraded',
  'When a filter with the stable option resumes from moments whose precision was degraded (rounded, truncated to a shorter '
  'float format, torn between two generations, or perturbed so that they are no longer the moments of any distribution), the '
  'quadrature it forms has finite nodes and (in one dimension) non-negative weights that sum to one; for moment matrices up to '
  '3 by 3 that are clearly definite or indefinite its next posterior is finite. Where the degraded moments are still '
  'clearly valid moments, the stable and the default option give the same posterior.',
  ['fault_sequences', 'inputs', 'configurations'], 'every moment vector reached by a seeded filter run followed by every degradation kind and magnitude',
  'The tests decompose a few random positive definite matrices; the indefinite branch is what the option exists for and depends '
  'on which moments a fault damages.',
  ['mfs/utils.py', 'mfs/one_dim/quadtures.py', 'mfs/multi_dims/quadratures.py', 'mfs/one_dim/filtering.py'],
  [('LDL completion', 'mfs/utils.py:ldl_chol')], ['quadrature weights and nodes, filter outputs'])

p('S06', 'Grid filter returns the normalised Bayes posterior on every delivered history',
  'Every density the brute-force grid filter reports integrates to one over its grid, is non-negative when transition densities '
  'are integrated, and equals predict-then-Bayes of the previous one under the chosen prediction method, number of integration '
  'steps and time interval. Any batching, crash and resume from the last reported density gives the same densities.',
  ['histories', 'crash_points', 'schedules', 'inputs', 'configurations'], STREAM + '; all prediction methods, integration steps 1..4, several grids',
  'The tests compare one model and one measurement sequence per method with another filter at coarse tolerance.',
  ['mfs/classical_filters_smoothers/brute_force.py'], [('predict and normalise in the scan', 'mfs/classical_filters_smoothers/brute_force.py')],
  ['returned densities'])

p('S07', 'Concurrent estimators in one process do not influence each other',
  'When several threads of one process build and run filters, smoothers, simulators and quadratures at the same time, each call '
  'returns what it returns when run alone, for every interleaving of the calls at any point of the library\'s own code and wherever it calls '
  'back into user code, also when a caller\'s model raises or stalls half way and whether or not the callers share model functions. '
  'Repeating a call later in the same process, after calls with other arguments, returns the same result, and no call changes its caller\'s measurements.',
  ['schedules', 'histories', 'configurations', 'fault_sequences'], 'every seeded interleaving of 2..4 caller threads with models, orders, dimensions and time intervals that differ in one or in all respects',
  'The tests run one call at a time in one thread, in a fixed order.',
  ['mfs/one_dim/filtering.py', 'mfs/multi_dims/filtering.py', 'mfs/classical_filters_smoothers/gfs.py', 'mfs/classical_filters_smoothers/smc.py',
   'mfs/utils.py', 'mfs/one_dim/moments.py', 'mfs/multi_dims/moments.py', 'mfs/one_dim/ss_models.py', 'mfs/multi_dims/ss_models.py'],
  [('pure functions without module state', 'mfs/')], ['return values of the calls'])

p('S08', 'Posterior information recursion is exact and resumable',
  'The posterior Cramer-Rao information matrices equal the information recursion with expectations taken over the supplied '
  'trajectories and measurements, are symmetric, and for linear Gaussian models are the inverse of the exact filtering '
  'covariance. Feeding the trajectories in batches, crashing and resuming from the last reported matrix gives the same matrices.',
  ['histories', 'crash_points', 'schedules', 'inputs'], 'every seeded model, trajectory bundle, batch schedule and crash point',
  'One test checks one linear model in one call.', ['mfs/utils.py'], [('scan carrying the information matrix', 'mfs/utils.py:posterior_cramer_rao')],
  ['returned matrices'])

p('R01', 'Resampling keeps the population valid and unbiased for every random outcome',
  'For every normalised weight vector and every outcome of the random source, systematic, stratified and multinomial resampling '
  'return as many indices as particles, in range, never of a particle with zero weight, with systematic offspring counts within '
  'one of n times the weight (stratified: within two); averaged over the random source the offspring counts are n times the '
  'weights, and multinomial and stratified counts vary as independent draws (over all of the distribution, or one per stratum) do. Continuous resampling returns sorted values inside the range of the samples that follow the '
  'piecewise-linear weighted distribution, one independent draw per stratum.',
  ['inputs', 'schedules', 'fault_sequences'], 'every weight vector (degenerate, zero-laden, tiny, large n, float32 and float64) and every draw of the random source, including its extreme values',
  'The tests draw a few keys and compare averages; extreme draws have probability below 1e-6 per draw and rounding of the '
  'cumulative sum needs particular weights.',
  ['mfs/classical_filters_smoothers/resampling.py'], [('inverse-CDF search with clipping', 'mfs/classical_filters_smoothers/resampling.py')],
  ['returned indices or samples'])

p('R02', 'Particle filters chain, weight and resample consistently on fresh randomness',
  'In every step of both particle filters, the reported particles are the resampled rows of what the proposal produced from the '
  'previously reported particles, the resampler sees the normalised importance weights, and the reported negative '
  'log-likelihood is minus the sum of the log average weights. Initialisation, every proposal and every resampling receive '
  'random keys that are pairwise different and not derived from one another, and the same key gives the same output.',
  ['histories', 'schedules', 'inputs', 'fault_sequences'], 'every seeded model, measurement history with faults, resampler decision (including adversarial ones), key, number of particles and of measurements',
  'The tests check that a posterior mean is close to a Kalman filter for one seed; mispaired ancestors, reused keys or a '
  'missing increment stay within Monte Carlo error.',
  ['mfs/classical_filters_smoothers/smc.py', 'mfs/classical_filters_smoothers/resampling.py'],
  [('key splitting', 'mfs/classical_filters_smoothers/smc.py'), ('propagate, weight, resample scan', 'mfs/classical_filters_smoothers/smc.py')],
  ['callback arguments, returned samples and likelihood'])

p('R03', 'Simulators and samplers draw from the stated law with fresh randomness',
  'A simulated trajectory is a function of its key only, its increments are mutually independent standard normals transformed by '
  'the given conditional mean and covariance over the right sub-interval, and different keys give different trajectories. '
  'Gaussian-mixture samplers draw component and noise independently per sample with the stated weights, means and covariances; '
  'the moments and density that come with a mixture are those of the law it samples; '
  'and, for any number of integration steps, the bundled models simulate measurements and states that follow their own transition and measurement laws.',
  ['inputs', 'schedules', 'configurations'], 'every seeded model, dimension, time interval, number of integration steps and key; laws are tested with statistics whose false-alarm probability is below 1e-9',
  'The tests look at one key or at a sample mean.', ['mfs/utils.py', 'mfs/one_dim/ss_models.py', 'mfs/multi_dims/ss_models.py'],
  [('simulate_sde', 'mfs/utils.py'), ('GaussianSum samplers', 'mfs/utils.py'), ('benes_bernoulli, well_poisson, prey_predator simulators', 'mfs/*/ss_models.py')],
  ['returned trajectories, samples and measurements'])

p('P01', 'Every method of an experiment sees the same simulated data for a given run',
  'In each experiment of the cluster pipeline, the k-th Monte Carlo run of every method, in whatever order, concurrency or '
  'repetition the jobs execute, consumes the same simulated trajectory and measurements, and different runs consume different '
  'ones. What a method reports for run k is independent of which other jobs ran before it.',
  ['schedules', 'configurations', 'crash_points'], 'every seeded order, concurrency and repetition of jobs, every run index, every method of an experiment',
  'No test runs the pipeline scripts.', ['dardel/benes_bernoulli', 'dardel/prey_predator', 'dardel/parameter_estimation', 'dardel/convergence', 'dardel/generate_rng_key.py'],
  [('row k of the shared key file', 'dardel/*/*.py')], ['measurements handed to the filters, stored results'])

p('P02', 'Packed result files hold every run exactly once, in order, or packing fails',
  'Post-processing collects the stored results of runs 0..M-1 into arrays whose k-th row is run k\'s result, for any M the user '
  'asks for. If a result is missing, torn or unreadable, or the disk is full, it fails with an error instead of writing a packed '
  'file that lacks, repeats or invents a run.',
  ['fault_sequences', 'crash_points', 'configurations'], 'every subset of missing, torn or empty result files, every number of runs, disk faults at every write',
  'No test runs the pipeline scripts.', ['dardel/benes_bernoulli', 'dardel/convergence', 'dardel/prey_predator', 'dardel/parameter_estimation'],
  [('loop over run indices', 'dardel/*/post_processing_*.py')], ['packed files, exit status'])

p('P03', 'Raw results survive until they have been packed successfully',
  'The job drivers delete the raw results of a run only after post-processing has read all of them and stored the packed file. '
  'If a job or post-processing fails, is killed, or the disk is full at any point, no raw result that is not in a packed file is '
  'deleted. A driver run without faults waits for all the jobs it starts, whatever order they finish in, and leaves complete packed files.',
  ['crash_points', 'fault_sequences', 'schedules', 'configurations'], 'every driver script, every failing or killed command at every position, every job completion order, run counts edited as the README tells users',
  'No test runs the drivers.', ['dardel/*.sh'], [('wait, post-process, remove', 'dardel/run_*.sh')], ['files present after the driver ends'])

p('P04', 'Reported run times are elapsed times under any clock adjustment',
  'The run times recorded by the time-profiling programs are the elapsed times of the calls of the filter (with its options) that '
  'the result file is named after, one per run. They are never negative, do not change when the wall clock jumps or is slewed during '
  'the measurement, include the completion of the computation and exclude its compilation.',
  ['schedules', 'fault_sequences'], 'every seeded wall-clock jump, skew and slow call at any position of the profiling loop',
  'No test runs the programs; clock jumps cannot be produced in a unit test.', ['dardel/time_profile'], [('timing loop', 'dardel/time_profile/*.py')], ['printed or stored times'])

p('P05', 'Every result reader finds what the writers stored, and no job overwrites another',
  'Every file that a post-processing, error-computing or plotting program reads is written by some job or post-processing step '
  'of the pipeline under that name with the fields that are read, also when writers and readers are given other (equal) options than the '
  'drivers give. Two different jobs the drivers start never write the same file, and two calls of a job program that differ in the '
  'run number, the filter order or mode, the transition or Normal approximation, the resampling, the grid b and m (particle filter of '
  'the Benes experiment) or, where the program stores results by it, the number of particles or of sigma points, never do either.',
  ['configurations', 'schedules', 'crash_points'], 'every job the drivers start, with every run count, order, particle number and method they can be given; jobs killed and repeated',
  'No test runs the pipeline.', ['dardel', 'reproduce_paper_plots'], [('file name patterns', 'dardel/*/*.py, reproduce_paper_plots/*.py')], ['paths and array names written and read'])

p('P06', 'Stored results come from the method they are named after',
  'The results a pipeline job stores under a method\'s name are that method\'s output on that run\'s measurements: the estimates '
  'or optimised parameters of that filter\'s own likelihood, and errors that are the distance between that method\'s estimate and '
  'the truth of the same run and time.',
  ['configurations', 'inputs', 'schedules'], 'every job of every experiment with seeded data and substituted light-weight configurations',
  'No test runs the pipeline.', ['dardel/benes_bernoulli', 'dardel/parameter_estimation', 'dardel/prey_predator', 'dardel/convergence'],
  [('method call and np.savez', 'dardel/*/*.py')], ['arrays stored by the jobs'])

NA = 'inputs'
p('N01', '1-D and N-D quadratures integrate polynomials exactly',
  'A quadrature built from the moments of a distribution up to order 2N-1 reproduces those moments, and the rule does not depend '
  'on the representation (raw, central, scaled) it was built from.', [NA], 'every valid moment vector',
  'Finite sample of distributions.', ['mfs/one_dim/quadtures.py', 'mfs/multi_dims/quadratures.py'], [('Golub-Welsch / operator quadrature', 'mfs/*/quad*.py')])
p('N02', 'Multi-index enumeration and lookup are inverse to each other',
  'Enumerating the exponents of bounded degree in graded lexicographic order yields each exactly once, and looking an exponent up '
  'returns its position.', [NA], 'every dimension and degree', 'Finite sample of dimensions.', ['mfs/multi_dims/multi_indices.py'],
  [('enumeration', 'mfs/multi_dims/multi_indices.py')])
p('N03', 'Moment and cumulant conversions are exact and inverse to each other',
  'Converting between raw, central, scaled moments and cumulants preserves the distribution\'s moments and round-trips.', [NA],
  'every valid moment vector', 'Finite sample.', ['mfs/one_dim/moments.py', 'mfs/multi_dims/moments.py'], [('binomial sums', 'mfs/one_dim/moments.py')])
p('N04', 'Density approximations reproduce the density of matched moments',
  'The density approximations built from moments or cumulants approximate the density that has them.', [NA], 'every density',
  'Finite sample.', ['mfs/one_dim/pdf_approximations.py'], [('series and inversion formulas', 'mfs/one_dim/pdf_approximations.py')])
p('N05', 'Numerical helpers satisfy their defining identities',
  'Linear SDE discretisation, Bell and Hermite polynomials, Lanczos iteration and LDL factorisation satisfy their defining identities.',
  [NA], 'every argument', 'Finite sample.', ['mfs/utils.py'], [('closed formulas and recursions', 'mfs/utils.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
