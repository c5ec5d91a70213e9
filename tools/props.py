"""The properties: what is stated, where it is anchored, and how each check is built.  tools/generate.py writes
properties.jsonl and MANIFEST.json from this table, and ./run builds and runs the checks from it."""

IC = 'incremental_calibration/'
INC = IC + 'include/aslam/calibration/'
SRC = IC + 'src/'
EX = 'incremental_calibration_examples/incremental_calibration_examples_'

CORE_HARNESS = ['harness/oracle.cc', 'stubs/truncated-svd-solver/tsvd-solver.cc']
STUB_ASSUMPTIONS = [
    'aslam_backend (design variables, error terms, Optimizer2, BlockCholesky-free QR path) and the truncated-svd-solver '
    'library are not installed and not in the repository; /verif/stubs holds plain reimplementations of the interfaces '
    'the library uses, written from their documentation',
    'the linear algebra of the oracle is dense Eigen; cases whose rank decision is within a factor of the tolerance are discarded',
]

ALL = []


def prop(pid, title, statement, over, text, why, files, mechanism, rule, technique, level_note, observe=(), state=(), harness=(),
         sources=('lib',), libs=(), quick=1.0, thorough=1.0, assumptions=(), includes=(), flags=(), hook=None):
    p = dict(id=pid, title=title, rule=rule, harness=['harness/%s.cpp' % pid.lower()] + list(harness), sources=list(sources),
             libs=list(libs), quick_scale=quick, thorough_scale=thorough, assumptions=list(assumptions), includes=list(includes),
             flags=list(flags), technique=technique, level_note=level_note)
    p['json'] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                     anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                  state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe),
                                  hook_needed=hook))
    ALL.append(p)


def core(pid, *a, **k):
    k.setdefault('harness', CORE_HARNESS)
    k.setdefault('sources', ['core', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc'])
    k.setdefault('libs', ['-lcholmod', '-lglog'])
    k.setdefault('assumptions', STUB_ASSUMPTIONS)
    prop(pid, *a, **k)


NO_TESTS = 'The two tests that run here call permute and the sum of logarithms on one fixed input each; nothing runs this code.'

OP = SRC + 'core/OptimizationProblem.cpp'
IOP = SRC + 'core/IncrementalOptimizationProblem.cpp'
IE = SRC + 'core/IncrementalEstimator.cpp'
SOLVER = 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc'

core('C01', 'A measurement batch is a faithful grouped container',
     'After any sequence of operations on a batch, its groups, the order of the groups and of the design variables in each, the group '
     'dimensions and its error terms are exactly those the accepted operations produce: group dimension counts active variables only, '
     'and indexed access walks the groups in their ordering and the error terms in insertion order. Adding a variable or error term '
     'that is already there, an error term with a variable that is not in the batch, a group ordering or permutation that is not a '
     'rearrangement of what is there, and an access to an unknown group or index are refused with an error. A refused operation '
     'changes nothing.',
     ['histories', 'inputs'], 'All sequences of additions, orderings, permutations, activations, clears and queries, valid and invalid.',
     NO_TESTS, [OP, INC + 'core/OptimizationProblem.h', INC + 'algorithms/permute.tpp'],
     [('addition and refusal of variables and error terms', OP + ': addDesignVariable, addErrorTerm'),
      ('group ordering and permutation', OP + ': setGroupsOrdering, permuteDesignVariables, permuteErrorTerms'),
      ('indexed access', OP + ': designVariable, errorTerm, getGroupId')],
     'A case is a random history of up to 40 operations (valid, and invalid in every documented way) against a reference model compared in '
     'full after each operation; non-trivial when it has at least two groups, an error term and a refused operation.',
     'stateful model-based random testing against a reference container, with shrinking',
     'Random histories against a reference model; all accessors compared after every step. Not exhaustive.',
     observe=['public accessors of the batch container'], quick=4, thorough=2)

core('C02', 'The merged problem is the ordered union of its batches',
     'After any additions and removals of batches, in any order, the merged problem holds exactly the batches added and not removed, its '
     'groups and design variables are the union of theirs with each shared variable present once (and counted once per batch holding it), '
     'its error terms are theirs in batch order, and group dimensions, group orderings and indexed access agree with that. Adding a batch '
     'with an error term that is held (a batch added twice, say) or a variable held under a different group, removing one that is not held, and out-of-range '
     'indices or invalid orderings and permutations are refused and leave the merged problem unchanged.',
     ['histories', 'inputs'], 'All histories of adding and removing batches that share variables, with orderings, permutations and refused operations in between.',
     NO_TESTS, [IOP, INC + 'core/IncrementalOptimizationProblem.h'],
     [('merging and reference counting of shared variables', IOP + ': add, remove'), ('ordering', IOP + ': setGroupsOrdering, permuteDesignVariables, permuteErrorTerms'),
      ('indexed access across batches', IOP + ': designVariable, errorTerm')],
     'A case is a random history over up to 6 overlapping batches; non-trivial when two batches shared a variable and a batch was removed.',
     'stateful model-based random testing against a reference union, with shrinking',
     'Random histories against a reference model; full comparison after every step.', observe=['public accessors of the merged problem'], quick=4, thorough=2)

core('C03', 'Saved design variables are restored exactly',
     'Restoring the design variables of a batch or of the merged problem brings every variable that was saved back to exactly the value it '
     'had when it was last saved, whatever happened to it since, and leaves all others alone. This holds for repeated saves and restores, '
     'for a variable shared by batches, and across additions and removals of batches: removed or cleared variables are not restored, added '
     'ones are untouched until saved.',
     ['histories'], 'All interleavings of saving, restoring, changing values, adding, removing and clearing.',
     NO_TESTS, [OP, IOP], [('save and restore of a batch', OP + ': saveDesignVariables, restoreDesignVariables'), ('save and restore of the merged problem', IOP + ': saveDesignVariables, restoreDesignVariables')],
     'A case is a random interleaving with values compared exactly; non-trivial when a restore changed two or more variables back (and, for the merged problem, a batch was removed).',
     'stateful model-based random testing, with shrinking', 'Random interleavings, values compared bit for bit.', observe=['parameters of the design variables'], quick=4, thorough=2)

core('C04', 'A batch is kept exactly when the acceptance rule says so',
     'A batch offered to the estimator is kept if and only if it is forced, or the information gain about the marginalized variables is '
     'strictly above the configured threshold or their numerical rank rose above that of the last kept state, and (when validity checking is on) '
     'the optimization reduced the cost within its iteration limit. The reported information gain is half the increase, in bits, of the '
     'sum of logarithms of the singular values that count towards the rank of the marginalized information matrix, relative to the state '
     'last kept, re-optimized or left by a removal. A rejected batch is not in the problem afterwards and an accepted one is.',
     ['histories', 'inputs', 'configurations'], 'All sequences of offered batches, forced or not, all thresholds and option settings, with re-optimizations and removals in between.',
     NO_TESTS, [IE, INC + 'core/IncrementalEstimator.h'],
     [('acceptance rule', IE + ': processBatch'), ('information gain', IE + ': processBatch'), ('reference of the next gain', IE + ': addBatch, removeBatch, reoptimize')],
     'A case is a random world of linear error terms and a sequence of offers; the expected decision and gain come from a dense SVD of the batches; '
     'non-trivial when batches were both accepted and rejected, or a finite gain was tested exactly at and one float below its threshold.',
     'property-based testing against a dense reference of the rule, plus exact threshold probing', 'Random small problems (up to 6 batches) with a dense linear-algebra oracle.',
     observe=['return value of the estimator', 'batches held'], quick=5, thorough=2)

core('C05', 'A rejected or failing batch leaves no trace in the estimator',
     'When an offered batch is rejected, or its processing fails with an error, every design variable value and activation, the held batches, '
     'their groups and ordering, and every published statistic are exactly what they were before. Continuing with further batches, '
     'removals and re-optimizations then gives the same results as an estimator that was never offered the batch.',
     ['histories', 'fault_sequences'], 'All histories with rejected batches and batches whose error terms or marginalized group make processing fail.',
     NO_TESTS, [IE], [('rollback of a rejected batch', IE + ': processBatch, rollbackBatch'), ('restoring the linear solver', IE + ': restoreLinearSolver'), ('failure path', IE + ': addBatch, rollbackBatch')],
     'A case is a history with injected failures (no marginalized group, error terms that throw or give non-finite values) and rejections; compared with a snapshot '
     'and with a twin estimator never offered the rejected batches; non-trivial when a rejection or failure happened while other batches were held.',
     'stateful property-based testing with fault injection and a differential twin', 'Random histories with injected faults; snapshots compared exactly, the twin within 1e-6.',
     observe=['getters of the estimator', 'values of all design variables'], quick=5, thorough=2)

core('C06', 'The estimate depends on the batches held, not on how they came to be held',
     'After any history of accepted, removed and re-added batches, the ranks, singular values, covariance and (where observable) estimate are those of a fresh estimator '
     'given just the held batches, and for linear problems the estimate is a least-squares optimum of the error terms held. Removing every batch leaves an empty estimator '
     'that can be used again, and removing a batch that is not held changes nothing.',
     ['histories'], 'All histories of adding, removing and re-adding batches.', NO_TESTS, [IE, IOP],
     [('addition, removal and re-optimization', IE + ': addBatch, removeBatch, reoptimize'), ('ordering of the marginalized group', IE + ': orderMarginalizedDesignVariables')],
     'A case is a history and a fresh estimator given the held batches; non-trivial when a batch was removed or re-added while others remained.',
     'stateful differential testing against a fresh estimator and a least-squares oracle', 'Random small problems; comparison within 1e-5 of a freshly built estimator.', observe=['getters of the estimator'], quick=5, thorough=2)

core('C07', 'Published statistics describe the estimate the estimator stands for',
     'After every accepted batch, re-optimization and removal, the published singular values, numerical ranks and deficiencies are those of the exposed Jacobian marginalized to the '
     'calibration variables, the published bases are orthonormal and span its observable and unobservable directions, and the covariance is the inverse information on the observable '
     'ones; with column scaling the scaled versions describe the column-scaled system, without it they are empty. The published initial and final costs are the costs of the error terms before and after optimizing, the values returned equal those published, and a new estimator publishes nothing.',
     ['histories', 'inputs', 'configurations'], 'All linear and nonlinear problems, rank-deficient ones included, with column scaling on or off.', NO_TESTS, [IE, SOLVER],
     [('statistics of the accepted state', IE + ': processBatch, reoptimize, removeBatch, getters'), ('marginal analysis', SOLVER + ': analyzeMarginal')],
     'A case is a random world run through offers, re-optimizations and removals; non-trivial when the information was rank deficient or scaled with other variables present.',
     'property-based testing against a dense marginalization oracle', 'Random small problems; dense SVD oracle with relative tolerances of 1e-5 to 1e-9.', observe=['getters of the estimator', 'return value of addBatch'], quick=5, thorough=2)

core('C08', 'The linear solver solves the system the error terms define',
     'The matrix and right-hand side the solver exposes are the stacked, weighted Jacobian and error of the active design variables at their current values, and its step is the truncated '
     'least-squares solution for the marginalized columns, zero along unobservable directions, with the remaining columns their least-squares completion. '
     'Scaled and unscaled statistics of the marginal, its tolerance and rank agree with that system, and a solve after the problem, activation or marginalization index changes concerns the new system.',
     ['inputs', 'histories', 'configurations'], 'All sets of error terms, robust weights, activations, marginalization indices and solver options.', NO_TESTS, [SOLVER, 'aslam_tsvd_solver/include/aslam-tsvd-solver/aslam-tsvd-solver.h'],
     [('assembly', SOLVER + ': initMatrixStructureImplementation, buildSystem'), ('solve', SOLVER + ': solveSystem'), ('marginal analysis', SOLVER + ': analyzeMarginal')],
     'A case is a random system; the exposed matrix and the step are compared with a dense reference; non-trivial when the marginalization index is inside the matrix and a robust weight, inactive variable or rank deficiency occurs.',
     'property-based testing against a dense least-squares oracle', 'Random small systems; the sparse truncated-SVD library itself is a stub, the adapter in the repository is what is checked.', observe=['exposed Jacobian, right-hand side, step, statistics'], quick=5, thorough=2)

core('C09', 'Every configuration entry sets the option it names',
     'An estimator built from a configuration tree has, for every documented estimator, linear-solver and optimizer entry, the configured value in the option of that name and the documented default when the '
     'entry is absent, independently of the other entries. An estimator without a marginalized group is refused, and one built from a tree behaves like one built with the same options in code.',
     ['configurations'], 'All subsets of the entries and all values.', NO_TESTS, [IE, SOLVER], [('reading the configuration', IE + ': constructor from a property tree'), ('solver options', SOLVER + ': constructor from a property tree')],
     'A case is a random subset of the entries with random values; non-trivial when between one and all but one of the keys were configured.',
     'property-based testing of configurations, differential against programmatic options', 'Random configurations.', observe=['options of the estimator', 'estimates'], quick=3, thorough=2)

prop('C10', 'Permutations, log-determinant sums and outer products are exact',
     'Permuting a container puts, at each position, the element the permutation vector names for it, for every permutation and element type; a vector that is not a permutation of the container is refused and the container is unchanged. '
     'The sum of log2 over the diagonal of a column range of a triangular factor counts exactly the entries above machine epsilon in magnitude, whatever their sign, and refuses an empty or out-of-range column range; the outer product of two vectors has as each entry the product of the two.',
     ['inputs'], 'All containers, permutation vectors (valid or not), triangular factors and column ranges.',
     'The two existing tests cover one permutation and one matrix each.', [INC + 'algorithms/permute.tpp', INC + 'algorithms/matrixOperations.tpp', INC + 'utils/OuterProduct.h'],
     [('permutation', INC + 'algorithms/permute.tpp: permute'), ('sum of logarithms', INC + 'algorithms/matrixOperations.tpp: computeSumLogDiagR'), ('outer product', INC + 'utils/OuterProduct.h')],
     'Random containers and permutations (and corrupted ones), random triangular factors with tiny, negative and zero entries, random and invalid column ranges.',
     'property-based testing against a direct definition', 'Random inputs of up to 40 elements.', quick=3)

prop('C11', 'A vector calibration variable adds its updates and can revert the last one',
     'The value of a vector design variable is its initial value plus the updates applied and not reverted; reverting restores exactly the value before the latest update. Getting, setting and printing the value, its minimal difference to '
     'another value and the Jacobian of that difference are mutually consistent, for every dimension, fixed or dynamic.',
     ['histories', 'inputs'], 'All sequences of updates, reverts and assignments.', 'The existing test of this class is not built here and applies one update.',
     [INC + 'data-structures/VectorDesignVariable.tpp'], [('update and revert', INC + 'data-structures/VectorDesignVariable.tpp: updateImplementation, revertUpdateImplementation'), ('minimal difference', INC + 'data-structures/VectorDesignVariable.tpp: minimalDifferenceImplementation')],
     'A case is a history of up to 30 operations against a model; non-trivial when an update was reverted.', 'stateful model-based testing', 'Random histories.', quick=2,
     assumptions=STUB_ASSUMPTIONS[:1])

prop('C12', 'A grid maps every point to the one cell that contains it',
     'Every point between minimum and maximum belongs to exactly one cell, the one whose centre is nearest and within half a cell, with points on the maximum and points a rounding error below it in the last cell; indices and coordinates convert back and forth consistently. '
     'Cells are read and written individually through coordinates, indices and iteration, points and indices outside the grid are refused without effect, and grids with inconsistent minimum, maximum or resolution cannot be built.',
     ['inputs'], 'All grids of integer or real coordinates, in one or more dimensions, fixed or dynamic, and all points and indices.', NO_TESTS, [INC + 'data-structures/Grid.tpp'],
     [('index of a point', INC + 'data-structures/Grid.tpp: getIndex'), ('centre of a cell', INC + 'data-structures/Grid.tpp: getCoordinates'), ('linear storage', INC + 'data-structures/Grid.tpp: computeLinearIndex, getCell'), ('range checks', INC + 'data-structures/Grid.tpp: isInRange, isValidIndex')],
     'Random grids and points, on, just below and beyond cell and grid borders.', 'property-based testing against exact rational arithmetic', 'Random grids up to 4 dimensions; exact oracle on dyadic coordinates, rounding oracle elsewhere.', quick=3)

prop('C13', 'A histogram counts every sample in range exactly once',
     'After any sequence of samples a histogram holds, in each bin, the number of samples falling in it; samples out of range are ignored, and the sum, the normalized histogram, mean, mode, median and unbiased variance (or covariance) are those of the bin centres weighted by the counts. '
     'A normalized histogram sums to one, and adding samples one by one or together gives the same result.',
     ['histories', 'inputs'], 'All bin layouts and all sequences of samples.', NO_TESTS, [INC + 'statistics/Histogram1v.tpp', INC + 'statistics/HistogramMv.tpp'],
     [('counting', INC + 'statistics/Histogram1v.tpp: addSample'), ('statistics', INC + 'statistics/HistogramMv.tpp: getMean, getMode, getCovariance')],
     'Random layouts and samples, in, on and out of the range.', 'property-based testing against a counting model', 'Random histograms in one to three dimensions.', quick=2)

prop('C14', 'Normal distributions evaluate their density, moments and distances correctly',
     'For every mean and positive definite covariance, in one or more dimensions, the density, its logarithm, cumulative distribution, precision, determinant, standard deviation, mean, median, mode, squared Mahalanobis distance and Kullback-Leibler divergence are those of the normal distribution, also after parameters are changed in any order. '
     'A variance that is not positive or a covariance that is not symmetric positive definite is refused, leaving the distribution as it was, and samples follow the distribution.',
     ['inputs', 'histories'], 'All means, covariances and arguments, and all sequences of parameter changes.', NO_TESTS,
     [SRC + 'statistics/NormalDistribution1v.cpp', INC + 'statistics/NormalDistributionMv.tpp'],
     [('univariate', SRC + 'statistics/NormalDistribution1v.cpp'), ('multivariate', INC + 'statistics/NormalDistributionMv.tpp')],
     'Random parameters and arguments, compared with long-double formulas; samples tested at the 1e-9 level.', 'property-based testing against long-double references and goodness-of-fit tests', 'Random parameters; dimensions 1 to 6.', quick=8, thorough=3)

prop('C15', 'Gamma, Erlang and chi-square distributions are what their names say',
     'For all parameters the density, its logarithm, cumulative distribution and quantiles, mean, mode, variance and Kullback-Leibler divergence are those of the gamma distribution with the given shape and inverse scale, zero density below its support included, and Erlang and chi-square agree with the gamma distributions they are special cases of. '
     'Parameters that are not positive are refused without effect, and samples follow the distribution.',
     ['inputs', 'histories'], 'All shapes, inverse scales, degrees of freedom and arguments, and sequences of parameter changes.', NO_TESTS,
     [INC + 'statistics/GammaDistribution.tpp', SRC + 'statistics/ChiSquareDistribution.cpp'],
     [('gamma', INC + 'statistics/GammaDistribution.tpp'), ('chi-square', SRC + 'statistics/ChiSquareDistribution.cpp')],
     'Random parameters and arguments, compared with long-double references (series, continued fraction and quadrature).', 'property-based testing against long-double references', 'Random parameters over several orders of magnitude.', quick=8, thorough=3)

prop('C16', 'Uniform distributions are uniform over exactly their support',
     'For every support, in one or more dimensions, the density or probability is constant on the support (both ends included) and zero off it, and the support area, mean, median and variance or covariance are those of the uniform distribution, continuous for real and discrete for integer arguments; asking for the mode is refused. '
     'A support whose minimum is not below its maximum (in every dimension) is refused without effect, and samples reach the whole support evenly and never leave it.',
     ['inputs', 'histories'], 'All supports, argument types and arguments, and sequences of support changes.', NO_TESTS,
     [INC + 'statistics/UniformDistribution1v.tpp', INC + 'statistics/UniformDistributionMv.tpp'],
     [('univariate', INC + 'statistics/UniformDistribution1v.tpp'), ('multivariate', INC + 'statistics/UniformDistributionMv.tpp')],
     'Random supports and arguments on, inside and outside the border; samples counted per value.', 'property-based testing against direct definitions and goodness-of-fit tests', 'Random supports; dimensions 1 to 5.', quick=8, thorough=3)

prop('C17', 'Special functions are accurate over their whole domain',
     'The logarithm of the factorial, the multivariate log-gamma function of every dimension and argument type, the digamma function and the regularized incomplete gamma functions return the mathematical value to near machine precision everywhere in their domain, including large and small arguments and the borders of their computation methods. '
     'The two incomplete gamma functions add up to one, are monotone and satisfy their recurrence.',
     ['inputs'], 'All arguments and parameters.', NO_TESTS, [SRC + 'functions', INC + 'functions/LogGammaFunction.tpp'],
     [('factorials and gamma', SRC + 'functions/LogFactorialFunction.cpp, ' + INC + 'functions/LogGammaFunction.tpp'), ('digamma', INC + 'functions/DigammaFunction.tpp'), ('incomplete gamma', SRC + 'functions/IncompleteGammaPFunction.cpp')],
     'Random arguments over the whole range, compared with long-double references.', 'property-based testing against long-double references and functional equations', 'Random arguments from 1e-6 to 1e8.', quick=8, thorough=3)

prop('C18', 'Samplers draw from the distributions they are named after',
     'Every sampler (uniform over a real or integer interval, normal, categorical, Poisson, geometric, exponential, gamma and their discrete relatives) returns, for all valid parameters, independent values distributed as its name says and never outside its support, also for large means, wide intervals and zero-probability categories. '
     'Invalid parameters are refused, and the same seed gives the same sequence.',
     ['inputs'], 'All samplers, parameters, argument types and seeds.', NO_TESTS, [INC + 'statistics/Randomizer.tpp'], [('samplers', INC + 'statistics/Randomizer.tpp')],
     'A case draws a few thousand values for random parameters and tests them against the distribution at a level of about 1e-9 (chi-square or Kolmogorov-Smirnov), plus support and seed checks.',
     'property-based statistical testing with goodness-of-fit oracles', 'False alarm probability below 1e-6 per run by the test levels; seeds are fixed by the tier seed.', quick=20, thorough=4)

prop('C19', 'Maximum-likelihood normal estimators return the likelihood optimum of their data',
     'After any sequence of points, point sets and resets, the estimated mean and covariance are the maximum-likelihood ones (mean and mean squared deviation) of all points since the last reset, in one or more dimensions; a set of points given with weights replaces the estimate by the weighted mean and covariance of that set, and is ignored if the weights do not match it in number. '
     'These maximize the (weighted) likelihood. The estimator counts the unweighted points since the reset, says it is not valid when the data do not determine a normal distribution (no points, all on a line or point, weights without mass), and becomes valid again with more data.',
     ['histories', 'inputs'], 'All point sets, weights and histories of additions and resets.', NO_TESTS, [SRC + 'statistics/EstimatorMLNormal1v.cpp', INC + 'statistics/EstimatorMLNormalMv.tpp'],
     [('univariate', SRC + 'statistics/EstimatorMLNormal1v.cpp'), ('multivariate', INC + 'statistics/EstimatorMLNormalMv.tpp')],
     'Random histories compared with direct weighted sums in long double; perturbed estimates never have a higher likelihood.', 'stateful property-based testing against a direct computation and a likelihood oracle', 'Random histories of up to 30 points in dimensions 1 to 3.', quick=8, thorough=3)

prop('C20', 'Rigid transformations compose, invert and convert without loss',
     'A planar or spatial transformation maps points by its rotation followed by its translation, keeps distances, equals what its matrix, translation and angles say, and its inverse (returned or in place, any number of times) undoes it for every point. '
     'Composition is associative and maps points as one transformation after the other, and setting the components, or the matrix, of a transformation and reading them back agree.',
     ['inputs', 'histories'], 'All transformations (all angles, singular ones included), points, and sequences of assignments, inversions and compositions.', NO_TESTS,
     [INC + 'geometry/Transformation2d.tpp', INC + 'geometry/Transformation3d.tpp'], [('planar', INC + 'geometry/Transformation2d.tpp'), ('spatial', INC + 'geometry/Transformation3d.tpp')],
     'Random transformations and histories; non-trivial when inverted in place and given by a matrix.', 'property-based testing of algebraic laws against explicit matrices', 'Random transformations; tolerances of 1e-9.', quick=8, thorough=3)

prop('C21', 'Timestamps compare, subtract and print consistently',
     'Timestamps compare as the times they stand for, converting to and from seconds and to the seconds-and-nanoseconds form loses no more than rounding (nanoseconds in range, before the epoch too), and arithmetic on them agrees with arithmetic on seconds. '
     'The printed date is the local calendar date and time of the timestamp in every time zone, and the current time never disagrees with the system clock.',
     ['inputs', 'configurations'], 'All times before and after the epoch and all time zones.', NO_TESTS, [SRC + 'base/Timestamp.cpp'], [('conversions', SRC + 'base/Timestamp.cpp: constructors, operator timespec'), ('date', SRC + 'base/Timestamp.cpp: getDate')],
     'Random times and time zones against integer arithmetic and the C library.', 'property-based testing against integer arithmetic and the C library', 'Random times of 1900 to 2100.', quick=3)

prop('C22', 'Errors say what went wrong, streams round-trip, type queries are right',
     'An error of the library carries the message, file, line and function it was raised with, prints all that is set, and a copy prints the same. '
     'Streaming an object out or in uses its own format for that kind of stream (file or not), a single-instance class has one instance until destroyed and a new one after, and the type queries (numeric, real, void, equality, boolean combinations, selection) answer correctly for every type.',
     ['inputs', 'histories'], 'All messages, files and line numbers; all sequences of creating, using and destroying; all arithmetic types.', NO_TESTS,
     [SRC + 'exceptions/Exception.cpp', INC + 'exceptions', SRC + 'base/Serializable.cpp', INC + 'base/Singleton.tpp', INC + 'tpl'],
     [('errors', SRC + 'exceptions/Exception.cpp'), ('streams', SRC + 'base/Serializable.cpp'), ('single instance', INC + 'base/Singleton.tpp')],
     'Random messages, histories and types.', 'property-based testing against direct definitions', 'Random inputs; one header that does not compile with the installed Eigen is left out.', quick=5, thorough=3)

LRF = EX + '2dlrf/'
EXAMPLE_ASSUMPTIONS = [STUB_ASSUMPTIONS[0],
    'sm_kinematics (rotations, quaternions, Euler angles) and the aslam_backend expressions are replaced by plain reimplementations '
    'under /verif/stubs, with the conventions listed in /verif/stubs/README.md']

prop('C23', 'The laser-rangefinder models have the stated errors and derivatives',
     'For every pair of poses, timestep and input, the error of the motion model of the 2D laser-rangefinder example is the input minus the velocity, in the frame of the first pose, that leads to the second (headings modulo a full turn), and for every pose, landmark and sensor calibration the error of its observation '
     'model is the measured minus the predicted range and bearing (modulo a full turn). The squared error is weighted with the inverse of the current covariance, and the Jacobians are the derivatives of the error with respect to every active variable and none for fixed ones. '
     'Changing a parameter has the effect of building the model with it, and copies evaluate the same and are separate.',
     ['inputs', 'histories'], 'All states, measurements, covariances and parameter changes, away from the sensor position itself.',
     'Their tests are not built here and check one linearization point each.',
     [LRF + 'src/2dlrf/ErrorTermMotion.cpp', LRF + 'src/2dlrf/ErrorTermObservation.cpp'],
     [('motion model', LRF + 'src/2dlrf/ErrorTermMotion.cpp: evaluateErrorImplementation, evaluateJacobiansImplementation'),
      ('observation model', LRF + 'src/2dlrf/ErrorTermObservation.cpp: evaluateErrorImplementation, evaluateJacobiansImplementation'),
      ('parameter changes', LRF + 'src/2dlrf/ErrorTermMotion.cpp: setCovariance')],
     'Random states, measurements and covariances; the error is compared with the geometry, the Jacobians with five-point differences over the updates of the variables.',
     'property-based testing against direct geometry and finite differences', 'Random inputs; Jacobians to about 1e-6.', quick=4, thorough=3,
     sources=['lib', LRF + 'src/2dlrf/ErrorTermMotion.cpp', LRF + 'src/2dlrf/ErrorTermObservation.cpp'], includes=[LRF + 'include'], assumptions=EXAMPLE_ASSUMPTIONS)

prop('C24', 'The simulated laser-rangefinder path and landmarks match their definition',
     'A generated sine path has as many inputs as asked for, the first one zero, and integrating its turn rates gives at every step the heading of the wave, with the mean speed along it and no sideways motion. '
     'Landmark initialization places every landmark where the first valid range and bearing, taken from the odometry pose and sensor calibration, put it (exactly on the landmark when the measurements are exact), leaves those never seen at the origin, and changes nothing when there are no measurements.',
     ['inputs'], 'All step counts, amplitudes, frequencies and timesteps; all sets of poses, calibrations and measurements with missing ones.', NO_TESTS,
     [LRF + 'src/2dlrf/utils.cpp'], [('path', LRF + 'src/2dlrf/utils.cpp: genSineWavePath'), ('landmarks', LRF + 'src/2dlrf/utils.cpp: initLandmarks')],
     'Random parameters and scenes; the path is integrated and compared with the wave, the landmarks with the geometry.', 'property-based testing against direct geometry and a round trip', 'Random inputs, up to 5000 steps.', quick=6, thorough=5,
     sources=[LRF + 'src/2dlrf/utils.cpp'], includes=[LRF + 'include'])

CAR = EX + 'car/'
TD = EX + 'time_delay/'
EGO = EX + 'egomotion_sensors/'
ODO_STATEMENT = ('For every velocity, scale factor, pose and measurement, the error of the %s example\'s rear wheel, front wheel (signed speed, also backwards)%s pose%s is the measured minus the predicted value (angles modulo a full turn, and zero sideways and vertical wheel velocity), and '
     'the squared error is weighted with the inverse of the current covariance. The Jacobians are the derivatives of the error with respect to every variable behind the velocity or pose expressions, none for fixed ones, and finite wherever the error is differentiable. '
     'Changing a parameter has the effect of building the error term with it, and copies evaluate the same and are separate.')
def odo(pid, name, base, extra, extra2, terms):
    prop(pid, 'The %s error terms have the stated errors and derivatives' % name, ODO_STATEMENT % (name, extra, extra2),
         ['inputs', 'histories'], 'All velocities (a standing front wheel excepted), poses away from vertical pitch, measurements, covariances and parameter changes.',
         'Their tests are not built here and check one linearization point each.', [base + 'src/error-terms'],
         [(t.lower(), base + 'src/error-terms/ErrorTerm%s.cpp: evaluateErrorImplementation, evaluateJacobiansImplementation' % t) for t in terms],
         'Random states through rotations, lever arms and mountings; errors against direct formulas, Jacobians against five-point differences over the variables\' own updates.',
         'property-based testing against direct formulas and finite differences', 'Random inputs; Jacobians to about 1e-6.', quick=4, thorough=4,
         sources=['lib', base + 'src/error-terms'], includes=[base + 'include'], assumptions=EXAMPLE_ASSUMPTIONS)

odo('C25', 'car', CAR, ', steering, linear and angular velocity and', '', ['Wheel', 'Steering', 'Velocities', 'Pose'])
odo('C26', 'time-delay', TD, ' and', '', ['Wheel', 'Pose'])

prop('C27', 'Geodetic conversions and quaternion continuity of the examples',
     'A latitude, longitude and altitude convert to the earth-centred point of the WGS84 ellipsoid they denote (to a millimetre), the local east-north-up and north-east-down frames at a point have their axes along those directions and their origin at the point, and each conversion to a local frame is the inverse of the one from it. '
     'Of the two quaternions of a rotation, the examples continue a sequence with the one nearer to the previous (the given one when equally near), so smooth rotations give smooth quaternions.',
     ['inputs'], 'All places on and above the earth, poles and date line included, all points, and all pairs and smooth sequences of quaternions.', NO_TESTS,
     [CAR + 'src/geo/geodetic.cpp', CAR + 'src/algo/bestQuat.cpp', TD + 'src/algo/bestQuat.cpp', EGO + 'src/algo/bestQuat.cpp'],
     [('conversions', CAR + 'src/geo/geodetic.cpp'), ('nearest quaternion', CAR + 'src/algo/bestQuat.cpp, ' + TD + 'src/algo/bestQuat.cpp, ' + EGO + 'src/algo/bestQuat.cpp')],
     'Random places, points and quaternions, special ones included.', 'property-based testing against a long-double reference, axis geometry and round trips', 'Random inputs.', quick=4, thorough=6,
     sources=[CAR + 'src/geo/geodetic.cpp', (CAR + 'src/algo/bestQuat.cpp', '-Dcalibration=calibration_car'), (TD + 'src/algo/bestQuat.cpp', '-Dcalibration=calibration_td'), (EGO + 'src/algo/bestQuat.cpp', '-Dcalibration=calibration_ego')],
     includes=[CAR + 'include', TD + 'include', EGO + 'include'], assumptions=EXAMPLE_ASSUMPTIONS[1:])

CAL_SOURCES = ['core', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc']
CAL_ASSUMPTIONS = [STUB_ASSUMPTIONS[0], EXAMPLE_ASSUMPTIONS[1],
    'aslam_splines and bsplines are replaced by uniform B-splines under /verif/stubs (least-squares fit, control points as design variables); '
    'expected values are computed from the same splines']
def cal(pid, title, statement, over, text, base, files, mechanism, rule, technique, level_note, sources=('src/algo', 'src/design-variables', 'src/error-terms'), **k):
    prop(pid, title, statement, over, text, 'Nothing builds or runs the calibrators here, and their tests check error terms only.', [base + f for f in files],
         [(n, base + w) for n, w in mechanism], rule, technique, level_note, harness=CORE_HARNESS, libs=['-lcholmod', '-lglog'],
         sources=CAL_SOURCES + [base + x for x in sources], includes=[base + 'include'], assumptions=CAL_ASSUMPTIONS, **k)

def conf(pid, name, base, cls, opt, **k):
    cal(pid, 'The %s calibrator setup follows its configuration and splines' % name,
        'Every value of a configuration reaches the option, estimator setting or calibration variable it names (the spline order left out has its documented default), and variables are active exactly when the configuration says they are estimated. '
        'The parameter vector and the printed form give each variable under its own name and position, also after it moved, and a batch receives all of them once, in their order, in the group asked for. '
        'A spline added to a batch makes all its control points active variables of the group given, an unknown spline index is refused, and a spline file has one row of position and angles per timestep of every spline.',
        ['configurations', 'histories'], 'All configurations; all sequences of adding splines; all spline lengths and timesteps.', base,
        ['src/algo/%s.cpp' % opt, 'src/design-variables/%s.cpp' % cls, 'src/algo/OptimizationProblemSpline.cpp', 'src/algo/splinesToFile.cpp'],
        [('options', 'src/algo/%s.cpp' % opt), ('variables', 'src/design-variables/%s.cpp: constructor, addToBatch, getParameters, write' % cls), ('spline batches', 'src/algo/OptimizationProblemSpline.cpp: addSpline'), ('spline files', 'src/algo/splinesToFile.cpp: writeSplines')],
        'Random configurations with all values different, random spline histories; files are read back and compared with the splines.',
        'property-based testing against the generated configuration, and of histories against a model', 'Random configurations and histories of up to six splines.', quick=1, thorough=3, **k)

conf('C28', 'car', CAR, 'OdometryDesignVariables', 'CarCalibratorOptions')

def calib(pid, name, base, cls, sensors, extra, **k):
    cal(pid, 'The %s calibrator predicts and batches measurements correctly' % name,
        'For every set of measurements, the path is the spline fit to the poses of the vehicle (sensor mounting removed), and the predictions, errors and weights of every %s measurement are those of the vehicle moving along it with the current calibration, at the delayed time of the sensor; '
        'measurements whose delayed time could leave the path%s are left out. A batch holds one error term for each remaining measurement, with the same error and depending on exactly the calibration variables of its sensor, with path and calibration in their own groups; measurements are processed once, when the window they started has passed, and never with too few of them to fit a path. '
        'Predicting and printing change no result, and noise-free measurements of a known vehicle lead the estimate to its calibration.' % (sensors, extra),
        ['histories', 'inputs', 'configurations'], 'All motions, calibrations, options, measurement sets and orders of arrival, and histories of additions, clears, predictions and processing.', base,
        ['src/algo/%s.cpp' % cls, 'include/aslam/calibration'], [('path', 'src/algo/%s.cpp: initSplines' % cls), ('predictions', 'src/algo/%s.cpp: predict, predict*' % cls), ('error terms', 'src/algo/%s.cpp: add*ErrorTerms' % cls), ('windows', 'src/algo/%s.cpp: addMeasurement, addMeasurements' % cls)],
        'Random motions seen by random sensors; predictions and error terms compared with the vehicle state of the spline, window histories with a model, estimates with the calibration that generated the data.',
        'stateful property-based testing against a kinematic model, and a synthetic round trip', 'Random scenes of up to 25 poses; quick and full batches.', **k)

conf('C29', 'time-delay', TD, 'OdometryDesignVariables', 'CalibratorOptions')

conf('C30', 'egomotion', EGO, 'DesignVariables', 'CalibratorOptions', sources=('src/algo', 'src/design-variables'))

calib('C31', 'car', CAR, 'CarCalibrator', 'pose, velocity, wheel speed and steering', ', slow, backward or below a threshold', quick=1, thorough=2)
calib('C32', 'time-delay', TD, 'Calibrator', 'pose and wheel speed', '', quick=1, thorough=2)

calib('C33', 'egomotion', EGO, 'Calibrator', 'motion', '', quick=1, thorough=2, sources=('src/algo', 'src/design-variables'))

cal('C34', 'The time-delay simulation measures the motion it simulates',
    'Every value of a configuration reaches the parameter it names, and every step moves the vehicle with the velocities that lead along the sine wave asked for. '
    'The measurements of each step are what the wheels and the mounted pose sensor see of that motion, at the delayed time of the sensor, and the noisy ones differ by noise of the configured variances. '
    'Every file written has a row for each of what it is named after.',
    ['configurations', 'inputs'], 'All configurations, motions and lengths of simulation.', TD, ['src/simulation'],
    [('parameters', 'src/simulation/SimulationParams.cpp, TrajectoryParams.cpp'), ('motion and measurements', 'src/simulation/simulationEngine.cpp'), ('files', 'src/simulation/SimulationData.cpp, Trajectory.cpp')],
    'Random configurations; poses, velocities and measurements compared with a rigid-body model of the motion; noise against bounds and its normalized variance; files read back.',
    'property-based testing against a rigid-body model', 'Random configurations, up to 800 steps; noise within 9 standard deviations.', quick=2, thorough=3,
    sources=['src/simulation/%s.cpp' % f for f in ('SimulationParams', 'TrajectoryParams', 'SimulationData', 'Trajectory', 'simulationEngine')] + ['src/algo', 'src/design-variables', 'src/error-terms'])

cal('C35', 'The egomotion simulation measures the motion it simulates',
    'Every value of a configuration reaches the parameter it names (the spline order left out has its documented default), and the path follows the kind of motion asked for from the start asked for, each phase of a combined motion going on where the one before ended. '
    'Every sensor measures, for every step, the motion of its mounting between the poses of the path, at its delayed time, with its covariance. '
    'The noisy measurements differ by noise of the configured variances.',
    ['configurations', 'inputs'], 'All configurations, kinds of motion and lengths of simulation.', EGO, ['src/simulation'],
    [('parameters', 'src/simulation/SimulationParams.cpp, TrajectoryParams.cpp'), ('motion and measurements', 'src/simulation/simulationEngine.cpp')],
    'Random configurations; splines compared with a fit to a rigid-body model of the motion, measurements with the splines; noise against bounds and its normalized variance.',
    'property-based testing against a rigid-body model', 'Random configurations, up to 120 steps; noise within 9 standard deviations.', quick=2, thorough=3,
    sources=['src/simulation/%s.cpp' % f for f in ('SimulationParams', 'TrajectoryParams', 'simulationEngine')] + ['src/algo', 'src/design-variables'])

PY = 'incremental_calibration_python/'
core('C36', 'The Python module offers the C++ quantity of each name',
    'Every option, result and statistic of the Python module is read and set as the C++ one of its name, matrices as copies. '
    'An estimator or problem built and driven from Python behaves as one driven from C++, step by step, errors being raised where C++ raises them. '
    'Objects obtained from others stay usable, and batches alive, as long as they are referenced.',
    ['histories', 'inputs', 'configurations'], 'All options and values; all histories of adding, removing, reoptimizing and clearing from Python.', 'Nothing builds the Python module here.',
    [PY + 'src/IncrementalEstimator.cpp', PY + 'src/LinearSolver.cpp', PY + 'src/OptimizationProblem.cpp', PY + 'src/module.cpp'],
    [('estimator', PY + 'src/IncrementalEstimator.cpp'), ('solver options', PY + 'src/LinearSolver.cpp'), ('problems', PY + 'src/OptimizationProblem.cpp')],
    'Random values, options and histories, driven through an embedded Python interpreter; non-trivial as each clause states.',
    'differential property-based testing of the Python module against the C++ library', 'Random inputs; matrices cross as nested lists instead of numpy arrays (numpy_eigen is not installed).', quick=1, thorough=2,
    sources=['core', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc'] + [PY + 'src/%s.cpp' % f for f in ('IncrementalEstimator', 'LinearSolver', 'OptimizationProblem', 'module')],
    includes=['/usr/include/python3.12'], libs=['-lcholmod', '-lglog', '-lboost_python312', '-lpython3.12'])

CAM = EX + 'camera/'
CAM_ASSUMPTIONS = [STUB_ASSUMPTIONS[0], EXAMPLE_ASSUMPTIONS[1],
    'aslam_cameras and OpenCV are replaced by plain cameras and by images that carry what they show (/verif/stubs): detecting corners in pixels is not checked']
cal('C37', 'The camera calibrator turns images of a target into the right estimates',
    'Every value of a configuration reaches the option, target, detector, camera model or estimator setting it names. '
    'An image with a target adds one pose and, for every corner seen, one error term with the measured corner, the covariance and robust weight asked for and its own variables to the batch, and one without changes nothing; a batch is processed when it has as many images as asked for, and accepted images are kept with their poses. '
    'Errors, statistics, intrinsics and uncertainties, and the file written from them, are those of the accepted batches at any time, and exact images lead to the camera that took them.',
    ['histories', 'inputs', 'configurations'], 'All configurations; all sequences of initialization, images with and without targets, and processing.', CAM,
    ['src/camera/CameraCalibrator.cpp'], [('configuration', 'src/camera/CameraCalibrator.cpp: constructor, initVisionFramework'), ('batches', 'src/camera/CameraCalibrator.cpp: addImage, addObservation, processBatch'), ('results', 'src/camera/CameraCalibrator.cpp: getErrors, getStatistics, getTransformation, write')],
    'Random cameras, targets, poses and visibilities; batches compared with the images, results with direct sums, estimates with the camera that generated the images.',
    'stateful property-based testing against a model of the images, and a synthetic round trip', 'Random histories of up to 10 steps, targets of up to 5x6 corners.', quick=3, thorough=6,
    sources=['src/camera/CameraCalibrator.cpp'])

cal('C38', 'The camera validator reports the errors of a calibration on every image',
    'Every value of a configuration and of the intrinsics reaches the option, target, detector or camera model setting it names, and an unknown projection model is refused. '
    'For every corner seen in an image with a target and predictable by the camera there is one error, predicted minus observed, with its squared Mahalanobis distance, in the order of images and corners; mean, variance, standard deviation, largest errors and outliers at any quantile are those of these errors, and an image without a target changes nothing. '
    'The last image is shown as a copy with every such corner marked where observed and where predicted and with the figures of that image, and a calibration written by the calibrator gives the same errors in the validator.',
    ['histories', 'inputs', 'configurations'], 'All configurations and calibrations; all sequences of images with any subset of corners.', CAM,
    ['src/camera/CameraValidator.cpp'], [('configuration', 'src/camera/CameraValidator.cpp: constructor, initVisionFramework'), ('images', 'src/camera/CameraValidator.cpp: addImage, getters, getLastImage'), ('agreement', 'src/camera/CameraCalibrator.cpp: write; src/camera/CameraValidator.cpp: constructor')],
    'Random cameras, targets, poses and visibilities; errors, statistics and drawings compared with direct sums over the corners, the calibrator compared with the validator.',
    'property-based testing against a direct model, and a differential check between calibrator and validator', 'Random histories of up to 6 images, targets of up to 5x5 corners.', quick=3, thorough=8,
    sources=['src/camera/CameraCalibrator.cpp', 'src/camera/CameraValidator.cpp'])

def programs(pid, title, statement, base, files, mechanism, rule, technique, level_note, **k):
    prop(pid, title, statement, ['configurations', 'inputs'], 'All configurations of the programs; all random streams of their simulations.' if k.pop('simulated', True) else 'All configurations of the programs; all recordings.',
         'Nothing builds or runs the programs here.', [base + f for f in files], [(n, base + w) for n, w in mechanism], rule, technique, level_note,
         harness=CORE_HARNESS, libs=['-lcholmod', '-lglog', '-lboost_filesystem'], assumptions=CAL_ASSUMPTIONS, **k)

LRF = EX + '2dlrf/'
programs('C39', 'The laser-rangefinder programs recover the calibration they simulate',
    'For every configuration the programs of the 2D laser-rangefinder example simulate the vehicle, landmarks and noise configured, and the batch and the incremental program recover the true calibration within the uncertainty they report, wherever it is observable. '
    'What they print and write (poses, odometry, landmarks, aligned estimates, ranks, gains, numbers of batches, terms and variables, the Jacobian) is what its name says. '
    'The configuration that comes with the example runs, and a wrong call or a missing file is refused.',
    LRF, ['src/2dlrf/simulate-offline.cpp', 'src/2dlrf/simulate-online-new.cpp', 'conf/config.xml'], [('batch program', 'src/2dlrf/simulate-offline.cpp: main'), ('incremental program', 'src/2dlrf/simulate-online-new.cpp: main'), ('configuration', 'conf/config.xml')],
    'Random configurations run whole in a scratch directory; files and output are read back and compared with the configured truth and with each other.',
    'property-based testing of whole programs: synthetic round trip, and consistency of their outputs', 'Random configurations of up to 32 steps and 6 landmarks; files are written with six digits.', quick=1, thorough=1,
    sources=['core', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc', LRF + 'src/2dlrf/utils.cpp', LRF + 'src/2dlrf/ErrorTermMotion.cpp', LRF + 'src/2dlrf/ErrorTermObservation.cpp',
             (LRF + 'src/2dlrf/simulate-offline.cpp', '-Dmain=lrf_offline_main'), (LRF + 'src/2dlrf/simulate-online-new.cpp', '-Dmain=lrf_online_main')], includes=[LRF + 'include'])

programs('C40', 'The time-delay program recovers the calibration it simulates',
    'For every configuration the program of the time-delay example simulates the motion, wheels, pose sensor and noise configured, and estimates the wheel base, wheel coefficients, delays and mounting it simulated, within their uncertainty, wherever they are observable. '
    'Every file written holds, row by row, what it is named after, the estimated path follows the true one, and the histories have one row per processed window. '
    'The configuration that comes with the example runs, and a wrong call or a missing file is refused.',
    TD, ['src/simulation/simulator.cpp', 'conf/simulation.xml'], [('program', 'src/simulation/simulator.cpp: main'), ('configuration', 'conf/simulation.xml')],
    'Random configurations run whole in a scratch directory; files are read back and compared with the configured truth and with each other.',
    'property-based testing of whole programs: synthetic round trip, and consistency of their files', 'Random configurations of up to 12 s of motion.', quick=1, thorough=1,
    sources=['core', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc'] + [TD + 'src/simulation/%s.cpp' % f for f in ('SimulationParams', 'TrajectoryParams', 'SimulationData', 'Trajectory', 'simulationEngine')] +
        [TD + 'src/algo', TD + 'src/design-variables', TD + 'src/error-terms', (TD + 'src/simulation/simulator.cpp', '-Dmain=td_main')], includes=[TD + 'include'])

programs('C41', 'The egomotion program recovers the calibration it simulates',
    'For every configuration the program of the egomotion example simulates the motion and sensors configured, and estimates the delays and mountings it simulated from the measurements asked for, noisy or not. '
    'Every file written holds, row by row, what it is named after, for each sensor its own, and the histories have one row per processed window. '
    'The configuration that comes with the example runs, and a wrong call or a missing file is refused.',
    EGO, ['src/simulation/simulator.cpp', 'conf/simulation.xml'], [('program', 'src/simulation/simulator.cpp: main'), ('configuration', 'conf/simulation.xml')],
    'Random configurations run whole in a scratch directory; files are read back and compared with the configured truth and with the library driven by the same random numbers.',
    'property-based testing of whole programs: synthetic round trip, and differential testing of their files', 'Random configurations of up to 6 s of motion.', quick=1, thorough=1,
    sources=['core', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc'] + [EGO + 'src/simulation/%s.cpp' % f for f in ('SimulationParams', 'TrajectoryParams', 'simulationEngine')] +
        [EGO + 'src/algo', EGO + 'src/design-variables', (EGO + 'src/simulation/simulator.cpp', '-Dmain=ego_main')], includes=[EGO + 'include'])

programs('C42', 'The camera programs calibrate and validate what a recording shows',
    'For every recording and configuration the calibration program starts from the first image that gives it a camera, uses every image of the topic asked for in the order received, and prints and writes (intrinsics with deviations, errors, images of accepted batches) what the calibrator finds from exactly these images; without any image to start from it refuses. '
    'The validation program reports, writes, shows and saves the errors of every image with a target for the intrinsics given, and accepts the file the calibration program writes: exact images lead to the camera that took them and validate without error. '
    'The configuration that comes with the example works for both, and a wrong call or a missing file is refused.',
    CAM, ['src/camera/calibrateCamera.cpp', 'src/camera/validateCamera.cpp', 'conf/config.xml'], [('calibration program', 'src/camera/calibrateCamera.cpp: main'), ('validation program', 'src/camera/validateCamera.cpp: main'), ('configuration', 'conf/config.xml')],
    'Random recordings run whole in a scratch directory; output, files and images are compared with the calibrator driven image by image, with direct sums over the corners and with the camera that generated them.',
    'property-based testing of whole programs: synthetic round trip, and differential testing of their output and files', 'Random recordings of up to 8 images, targets of up to 6x7 corners; rosbag and OpenCV are stand-ins.', quick=1, thorough=1, simulated=False,
    sources=['core', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc', CAM + 'src/camera/CameraCalibrator.cpp', CAM + 'src/camera/CameraValidator.cpp', (CAM + 'src/camera/calibrateCamera.cpp', '-Dmain=calib_main'), (CAM + 'src/camera/validateCamera.cpp', '-Dmain=valid_main')], includes=[CAM + 'include'])

programs('C43', 'The car programs calibrate and predict what a recording shows',
    'For every recording and configuration both car programs turn the navigation solutions into east-north-up poses and body-frame velocities with their accuracies, distances into speeds, and the messages of active sensors into measurements at corrected times, each sensor with its own correction, and leave out solutions without an accuracy and inactive sensors. '
    'The calibration program writes the measurements, gains, calibrations, path and deviations (under the names of the variables estimated) and the analysis program the predictions and errors that the calibrator finds from exactly these; a car recorded without noise gives its calibration back, and its own calibration predicts it. '
    'The configuration that comes with the example works for both, and a wrong call or a missing file is refused.',
    CAR, ['src/realworld/calibrator.cpp', 'src/realworld/analyzer.cpp', 'src/geo/geodetic.cpp', 'conf/config.xml'], [('calibration program', 'src/realworld/calibrator.cpp: main'), ('analysis program', 'src/realworld/analyzer.cpp: main'), ('configuration', 'conf/config.xml')],
    'Random drives anywhere on the globe, recorded and run whole in a scratch directory; files compared with an own conversion in extended precision, with the calibrator driven by it, and with the car that generated the recording.',
    'property-based testing of whole programs: synthetic round trip, and differential testing of their files', 'Random drives of up to 4 s; rosbag, messages and the timestamp corrector are stand-ins.', quick=1, thorough=1, simulated=False,
    sources=['core', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc', CAR + 'src/algo', CAR + 'src/design-variables', CAR + 'src/error-terms', CAR + 'src/geo', (CAR + 'src/realworld/calibrator.cpp', '-Dmain=car_calib_main'), (CAR + 'src/realworld/analyzer.cpp', '-Dmain=car_analyze_main')], includes=[CAR + 'include'])

core('C44', 'What is held lives exactly as long as it is held, and memory does not grow',
     'A batch, the merged problem and the estimator keep the design variables, error terms and batches given to them alive without any help of the caller, and release each of them as soon as it is '
     'removed, rejected, refused, failed or cleared, or its holder ends. Repeating the same work (solving a system, analysing the marginal system, adding and removing batches, a whole calibration) '
     'does not go on taking memory.',
     ['histories', 'fault_sequences'], 'All histories of adding, refusing, rejecting, failing, removing, clearing and dropping references, and all repeated systems.', NO_TESTS, [OP, IOP, IE, 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc'],
     [('ownership of variables and terms', OP + ': addDesignVariable, addErrorTerm, clear'), ('ownership of batches', IOP + ': add, remove, clear'), ('rollback', IE + ': rollbackBatch'), ('memory of the solver', 'aslam_tsvd_solver/src/aslam-tsvd-solver.cc: solveSystem, analyzeMarginal')],
     'A case is a history of a holder, in which weak references to everything ever offered are compared with a model of who holds it after every step, or a piece of work repeated six times while the bytes allocated are counted; '
     'non-trivial by clause: something was refused, rejected, failed, removed or dropped, or the system has three or more columns.',
     'stateful property-based testing against a model of ownership, with allocation counting', 'Random histories of up to 18 steps; ownership exact, memory judged by growth in three successive repetitions.',
     observe=['weak references', 'bytes allocated'], quick=5, thorough=2)

NOT_APPLICABLE = [dict(
    json=dict(id='N01', title='Vision data association keeps the tracks of keyframes',
        statement='Images added one after the other are tracked against the last keyframe, and an image with enough tracks and enough disparity becomes the next keyframe with its matches.',
        quantifier=dict(over=['histories'], text='All sequences of images and resets.'),
        why_tests_cant='No test builds it.',
        anchors=dict(files=['incremental_calibration_vision/src/vision/VisionDataAssociation.cpp'], mechanism=[dict(name='keyframes', where='src/vision/VisionDataAssociation.cpp: addImage')], state=[], observe_at=[], hook_needed=None)),
    reason='The class is unfinished: both thresholds are never set (members and no configuration), so which image becomes a keyframe is undefined, addToProblem adds nothing and nothing else gives access to what was kept, so no generated input has an observable outcome to judge; the feature pipeline it drives is not installed either.')]
CLAIMED = ALL
BY_ID = {p['id']: p for p in ALL}
