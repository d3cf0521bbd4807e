"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, N, C, O, S, R, A, U = ('kernelmethods/' + f + '.py' for f in
    ('base', 'numeric_kernels', 'categorical', 'operations', 'sampling', 'ranking',
     'algorithms', 'utils'))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files,
                                mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe, hook_needed=None)),
              technique, note))


p('C01', 'Kernel matrix values do not depend on the access history',
  'After a kernel matrix is attached to one or two samples, every element, sub-matrix, '
  'dense or sparse full form, normalized or centered version, diagonal, Frobenius norm, '
  'shape and size it returns is the one defined by its kernel function on exactly the '
  'most recently attached data, whatever sequence of accesses, attachments and '
  're-attachments came before. This holds for samples of any size, dtype and memory '
  'layout, with one or two samples, and with normalization on or off. Before anything is '
  'attached, asking for values fails instead of returning some.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of attach / re-attach (one or two samples, equal or different sizes, '
  'changed contents) and reads (element, row, block, full, sparse, centered, normalized, '
  'diagonal, norm) of one kernel matrix',
  'The tests read one or two forms of a freshly attached matrix; the caches and flags '
  'that make one access influence the next are only exercised in a handful of orders.',
  [B, O], [('attach/reset and cached full, normalized, centered and norm values',
            B + ':KernelMatrix')],
  ['KernelMatrix.full, full_sparse, normed_km, centered, frob_norm, diagonal, [i,j], '
   'shape, size'],
  'explicit-state BFS to closure over operation histories of the real object, plus '
  'exhaustive stateless sequences and size ladder',
  'All histories of any length over the operation alphabet for small samples (search '
  'closes), judged against textbook formulas; larger sizes by a full ladder of short '
  'histories.')
p('C02', 'The kernel is evaluated lazily and at most once per pair',
  'Attaching a sample evaluates nothing, and reading part of a kernel matrix evaluates '
  'the kernel function only on pairs of points whose values are needed for what was '
  'requested. During one attachment no pair is evaluated twice (an unordered pair of '
  'points of a single sample, an ordered pair across two samples), in whatever forms and '
  'however often the matrix is read. The only extra evaluations are those of each '
  "point's similarity with itself, at most once each, when a two-sample matrix is "
  'normalized.',
  ['histories', 'inputs'],
  'all access histories of one kernel matrix, with the evaluations of the kernel '
  'function logged',
  'The test on the number of evaluations looks at one history and a counter kept by the '
  'code itself; which pairs were evaluated is never observed.',
  [B], [('per-pair store of values', B + ':KernelMatrix')],
  ['calls received by the user kernel function'],
  'explicit-state BFS to closure over access histories with an evaluation log',
  'All histories of any length over the alphabet on 1-4 points; evaluation log compared '
  'with the need of each access.')
p('C03', 'Indexing a kernel matrix selects exactly the requested block',
  'Each dimension may be selected by an integer, a slice with any start, stop and step, '
  'or a collection of integers; the result is the two-dimensional block of kernel values '
  'at the selected rows and columns, in ascending order and without duplicates, and a '
  'lone integer addresses the matrix in row-major order. Selections that are out of '
  'range, negative, empty, not integers (floats, strings, booleans, None) or do not have '
  'one selector per dimension are rejected with an error. This holds for one- and '
  'two-sample matrices, square or not, whatever was evaluated before.',
  ['inputs', 'configurations'],
  'all pairs of integer / slice / collection selectors on matrices up to the bound, one '
  'and two samples, cold and warm',
  'Tests draw a few random index pairs and compare sizes, not which rows and columns came '
  'back.',
  [B], [('index normalization', B + ':KernelMatrix indexing')], ['KernelMatrix[...]'],
  'exhaustive enumeration of all selector pairs up to a size bound on the real code',
  'Every selector pair of the stated families on every shape up to the bound.')
p('C04', 'A failed access or rejected attach never corrupts a kernel matrix',
  'If the kernel function fails at any evaluation during any access, the failure is '
  'reported, and every later access returns exactly the right values or fails again; '
  'partial, stale or NaN-filled results are never returned. An attach that is rejected '
  '(wrong dimensions, mismatched features) leaves the kernel matrix as it was, its '
  'sample, values and attributes included. A later successful attach always starts '
  'afresh.',
  ['fault_sequences', 'histories'],
  'every failing evaluation (k-th from now, and permanently failing pairs) at every '
  'point of every access history',
  'No test makes a kernel function fail in the middle of an access.',
  [B], [('publication of complete matrices only; validation before state change',
         B + ':KernelMatrix')],
  ['KernelMatrix accessors after an exception'],
  'fault enumeration: explicit-state BFS with a fault injected at every evaluation point',
  'Every single fault position at every reachable state (search closes), permanent '
  'faults on every pair; several faults per history.')
p('C05', 'Kernel matrices, kernels and samples do not affect one another',
  'Using one kernel matrix, kernel set, composite or estimator never changes what another '
  'returns, even when they share the kernel function, the sample, the names or the object '
  'they were built from. User data (samples, targets, weights, index lists, kernels, '
  'buckets) is never modified, and results handed out earlier keep their contents when '
  'the object is attached, read or fitted again.',
  ['histories', 'configurations'],
  'all interleaved operation sequences on two or three objects sharing kernels, samples '
  'or members',
  'Each test uses a single object; interference needs several live objects and an '
  'unlucky order of operations.',
  [B, S, R, A], [('instance-local caches', B), ('copy of the user bucket', A)],
  ['all accessors of every live object', 'bytes of user arrays'],
  'exhaustive enumeration of interleaved histories over several live objects',
  'All sequences up to the stated depth; every object judged against its own reference '
  'after each step.')
p('C06', 'Concurrent readers of kernel matrices get the right values',
  'When several threads read the same attached kernel matrix, or different kernel '
  'matrices that share kernels and samples, in any mix of forms and under any '
  'interleaving, each read returns exactly the values a lone reader would get and none '
  'fails; a matrix read by concurrent threads also stays correct for later reads.',
  ['schedules'],
  'all interleavings, up to the preemption bound, of two or three threads reading',
  'No test uses threads; races depend on preemption between particular statements.',
  [B], [('complete matrices are published in one step', B + ':KernelMatrix')],
  ['KernelMatrix accessors called from threads'],
  'stateless exploration of thread schedules of the real code under a controlled '
  'scheduler, bounded preemptions',
  'All schedules with at most the stated preemptions at line granularity for each '
  'scenario; assumes preemption inside one line adds no further behaviour.')
p('C07', 'Cosine normalization is correct for one and two samples',
  'Normalizing a kernel matrix divides each entry by the geometric mean of the '
  'self-similarities of its two points, k(x,y)/sqrt(k(x,x)k(y,y)), both for one sample '
  '(unit diagonal) and for two different samples, through the standalone functions and '
  'through the kernel matrix alike, without changing the input. A (near-)zero '
  'self-similarity raises the normalization error instead of producing Inf or NaN, '
  'non-square input to the one-sample form and mismatching diagonals are rejected, and an '
  'unknown method is rejected, while the name of the method is not case sensitive.',
  ['inputs', 'configurations'],
  'all small integer-valued matrices / samples and all kernels of the library, one and '
  'two samples',
  'Tests check a unit diagonal on random data, and not the off-diagonal values or the '
  'error paths in combination.',
  [O, B], [('normalization', O + ':normalize_km, normalize_km_2sample')],
  ['normalize_km, normalize_km_2sample, KernelMatrix.normed_km, normalize, full'],
  'exhaustive enumeration of all small matrices and samples against the definition',
  'All matrices over the stated value grid and sizes; size ladder beyond.')
p('C08', 'Centering yields exactly the centered kernel matrix',
  'Centering a square matrix subtracts the row and column means and adds the overall '
  'mean, so that all rows and columns of the result sum to zero, constant matrices become '
  'zero and centering again changes nothing; the input is not modified. The centered form '
  'of a kernel matrix is computed from its unnormalized values whether or not it is kept '
  'normalized, and is refused when attached to two samples; non-square or non-array input '
  'is rejected.',
  ['inputs', 'histories'],
  'all small matrices (also asymmetric), and all kernel matrices on small samples',
  'Tests check one linear kernel on random data.',
  [O, B], [('centering', O + ':center_km')], ['center_km, KernelMatrix.centered'],
  'exhaustive enumeration of all small matrices against the definition',
  'All matrices over the stated value grid and sizes; size ladder beyond.')
p('C09', 'Frobenius product, norm and centered alignment match their definitions',
  'The Frobenius product is the sum of element-wise products, the norm its square root, '
  'and the centered alignment of two kernel matrices is the cosine between their centered '
  'versions: symmetric, within [-1, 1], 1 with itself, and invariant under positive '
  'scaling and constant shifts. Unless declared already centered, the inputs are '
  'centered; a matrix that vanishes when centered raises an error or yields the '
  'requested value, as chosen by the caller; mismatching shapes are rejected.',
  ['inputs'],
  'all pairs of small matrices',
  'Tests use a few random matrices and mostly check types and ranges.',
  [O], [('alignment', O + ':alignment_centered, frobenius_product, frobenius_norm')],
  ['return values'],
  'exhaustive enumeration of all pairs of small matrices against the definition',
  'All pairs over the stated value grid and sizes; size ladder beyond.')
p('C10', 'Numeric kernel functions compute their documented formula',
  'Each numeric kernel returns its documented formula for its parameters (linear, '
  'polynomial, Gaussian, Laplacian, chi-squared, sigmoid, Hadamard with positive '
  'exponent), is symmetric, and gives the same value however often it is called and '
  'whatever it was called with before. Integer, unsigned, boolean and floating-point '
  'vectors of any length, given as arrays, lists or tuples, give the same result as the '
  'same numbers in double precision (unless input checks are switched off), and the '
  'input is not modified. Vectors of different '
  'lengths, more-dimensional or non-numeric input and negative values for the chi-squared '
  'kernel are rejected, as is a zero Hadamard exponent.',
  ['inputs', 'configurations', 'histories'],
  'all pairs of vectors over value grids, all dtypes and containers, parameter grids, '
  'lengths',
  'Tests compare a few kernels with scikit-learn on random floats; dtype, zero, negative '
  'and parameter corner cases are not reached.',
  [N, U], [('formulas', N), ('input checks', U + ':check_input_arrays')],
  ['kernel(x, y)'],
  'exhaustive enumeration of all vector pairs over value grids, dtypes and parameters '
  'against the formula',
  'All pairs over the grid for every kernel/parameter/dtype; length and magnitude '
  'ladders.')
p('C11', 'PSD test is right and the PSD kernels always produce PSD matrices',
  'The positive-semidefiniteness test accepts a matrix exactly when it is square, '
  'symmetric, finite and has no eigenvalue below minus the tolerance. The Gaussian, '
  'Laplacian, linear, chi-squared, match-count and polynomial (positive-integer degree, '
  'non-negative intercept) kernels give matrices passing it, normalized or not, on every '
  'sample.',
  ['inputs', 'configurations'],
  'all small integer matrices, and all kernel matrices over all small samples of a grid',
  'Tests try random samples, which are almost surely well-conditioned and pairwise '
  'different.',
  [O, N, C, B], [('eigenvalue test', O + ':is_positive_semidefinite')],
  ['is_PSD(matrix)', 'kernel.is_psd()'],
  'exhaustive enumeration of small matrices (exact principal-minor oracle) and samples',
  'All symmetric integer matrices up to the bound; all samples (multisets of grid '
  'points) up to the bound.')
p('C12', 'A kernel set is an ordered list of size-compatible kernel matrices',
  'A kernel set holds the kernel matrices added to it, in order and by reference, '
  'through construction, append and extend, and length, indexing, iteration, selection '
  'of a subset and of the kernel functions reflect exactly that list. A kernel matrix or '
  'set whose number of samples differs from that of the set is refused and leaves the '
  'set unchanged; indices outside the set are refused. Attaching a set attaches every '
  'member to that sample, numeric or categorical; a sample of another size than the set '
  'already has is refused and leaves the set and its members as they were.',
  ['histories'],
  'all operation sequences on a kernel set up to the depth bound',
  'Tests build a set once and read it.',
  [B], [('membership list and size check', B + ':KernelSet')],
  ['KernelSet API'],
  'explicit-state BFS / exhaustive operation sequences against a list model',
  'All operation sequences up to the stated depth, real members, list model as oracle.')
p('C13', 'User attributes live exactly until the next attach',
  'A user-defined attribute of a kernel matrix returns the last value set, or the '
  'given default when it is not set, until the matrix is attached again, which removes '
  'all of them; reading or normalizing the matrix and attributes of other matrices have '
  'no influence. Setting attributes through a kernel set gives every member the value '
  'when it is a scalar, string or single-element collection, gives each member its own '
  'when there is one per member, refuses other lengths without setting anything; an '
  'attribute given when attaching a set is set on every member, whatever its value, and '
  'reading them through the set returns one value per member in order.',
  ['histories'],
  'all sequences of set / get / attach / read operations on kernel matrices and sets',
  'Tests set and read an attribute once.',
  [B], [('attribute dictionary', B + ':KernelMatrix, KernelSet')],
  ['set_attr, get_attr, attributes'],
  'explicit-state BFS over operation histories against a dictionary model',
  'All histories over the alphabet (search closes or stated depth).')
p('C14', 'Kernel buckets hold exactly the requested kernels',
  'A kernel bucket starts with a linear kernel followed by one kernel per requested '
  'parameter value, family by family in the given order, each with exactly that '
  'parameter value and the requested normalization; adding further parametrized kernels '
  'appends one per value, in order. Values for which no kernel can be built are skipped '
  'with a warning and affect nothing else, and invalid families or value lists are '
  'rejected leaving the bucket unchanged. The named strategies give the documented '
  'candidate families for their parameter ranges; unknown names are rejected, and two '
  'buckets never share kernel matrices.',
  ['configurations', 'histories'],
  'all combinations of parameter-value lists, strategies and flags, and add sequences',
  'Tests count the members of a default bucket.',
  [S], [('bucket construction', S + ':KernelBucket, make_kernel_bucket')],
  ['members of the bucket: type and parameters of kernels, values on data'],
  'exhaustive enumeration of configurations and add sequences against a list model',
  'All combinations of the value-list menus and all add sequences to the depth.')
p('C15', 'Composite kernels equal their element-wise definition',
  'Sum (optionally weighted), product, average and weighted-average kernels and linear '
  'combinations equal the element-wise combination of the members\' current full '
  'matrices with the given weights in member order (optionally weights scaled to sum to '
  'one), for any number of members, signs of weights and mix of precomputed and computed '
  'members. Results follow a new fit after the members were attached elsewhere, do not '
  'change the members or the weights, and are refused before the first fit; a wrong '
  'number of weights, too few kernels, unattached sets, and weights that can not be '
  'normalized are rejected.',
  ['inputs', 'histories', 'configurations'],
  'all small sets of kernels x weight vectors x fit / re-attach sequences',
  'Tests use one set and default weights.',
  [B, O], [('composites', B + ':CompositeKernel subclasses'),
           ('linear combination', O + ':linear_combination')],
  ['composite_KM, full, linear_combination'],
  'exhaustive enumeration of sets, weights and fit sequences against the definition',
  'All combinations of member menus and weight grids up to the bound.')
p('C16', 'Kernel ranking scores and the optimal kernel are right',
  'Alignment ranking gives each kernel its centered alignment with the outer product of '
  'the targets (the chosen value, 0 by default, when undefined), and cross-validation '
  'ranking the best cross-validated score of an SVM (or SVR) on its precomputed matrix '
  'over the C range, rescaled to 0..100, both in bucket order. The optimal kernel is a '
  'member with the highest score on the given sample and targets; kernels whose matrix '
  'has NaN or Inf are never chosen and do not disturb the others. Unknown methods and '
  'non-bucket input are rejected.',
  ['inputs', 'configurations', 'histories'],
  'all small label vectors, buckets with each kernel as the winner, and degenerate kernels',
  'Tests only check that ranking runs.',
  [R, O], [('ranking', R)], ['rank_kernels, alignment_ranking, CV_ranking, '
                             'find_optimal_kernel'],
  'exhaustive enumeration of label vectors and buckets against independent scoring',
  'All label vectors up to the bound on the stated samples and buckets.')
p('C17', 'Kernel machines predict like an SVM on the explicit kernel matrix',
  'A kernel machine fitted on data predicts, for any test points, what the SVM '
  'classifier or regressor trained on the explicitly computed (optionally normalized) '
  'kernel matrix with the same targets and sample weights predicts from the test-by-train '
  'kernel matrix; each prediction depends only on its own test point, and classes keep '
  'their values and type while regression predictions are real-valued. Refitting forgets '
  'the earlier data, predicting changes nothing about later predictions, and predicting '
  'before fitting is refused.',
  ['inputs', 'histories', 'configurations'],
  'all kernels x labelings of small samples x fit / predict sequences',
  'Tests run scikit-learn estimator checks, which do not compare with the kernel.',
  [A, R, B], [('fit and predict', A + ':BaseKernelMachine')],
  ['fit, predict, classes_'],
  'exhaustive enumeration of labelings, kernels and fit/predict histories against an '
  'explicit-Gram SVM',
  'All labelings of the stated samples; predictions compared where the decision margin '
  'exceeds solver tolerance.')
p('C18', 'Optimal-kernel estimators use the best-ranked kernel of the bucket',
  'Fitting an optimal-kernel estimator selects a kernel with the best score of the '
  'requested ranking method on the training data, trains the SVM with the given C (and '
  'epsilon) on that kernel, and predicts from the test-by-train matrix of that same '
  'kernel, independent of how test points are batched and of earlier fits and '
  'predictions. The bucket given by the user is not changed, a strategy name gives the '
  'corresponding bucket, and invalid buckets, methods and predicting before fitting are '
  'refused.',
  ['inputs', 'histories', 'configurations'],
  'labelings x buckets x ranking methods x fit / predict sequences',
  'Tests only run scikit-learn estimator checks and never look at which kernel was used.',
  [A, R, S], [('kernel search then SVM', A + ':BaseOptimalKernelMachine')],
  ['fit, predict, opt_kernel_'],
  'exhaustive enumeration of labelings, buckets and fit/predict histories against '
  'independent ranking and an explicit-Gram SVM',
  'All labelings/buckets of the stated menus; margin-based comparison.')
p('C19', 'Kernels and kernel collections describe themselves faithfully',
  'str(), repr() and format() (f-strings included) work and agree for every kernel '
  'function, kernel matrix (attached to one sample, two, or none), precomputed and '
  'constant matrix, kernel set, bucket and composite. The text names the kernel and its '
  'current parameter values, so kernels that differ in a parameter differ in their text; '
  'describing an object changes nothing about it, and a set lists all its members in '
  'order.',
  ['configurations', 'histories'],
  'all object kinds x parameter values x attachment states',
  'Tests print a few objects and ignore the text.',
  [B, N, C, S], [('string forms', B)], ['str, repr, format'],
  'exhaustive enumeration of object kinds, parameters and states',
  'All kinds and parameter menus.')
p('C20', 'Precomputed and constant kernel matrices behave like the matrix they wrap',
  'A precomputed kernel matrix accepts exactly the square, real, symmetric '
  'two-dimensional matrices and returns their values, size, diagonal and any sub-matrix '
  'unchanged, reporting invalid indices as access errors. A constant kernel matrix '
  'behaves as the n-by-n matrix filled with its value: full, diagonal, shape, size and '
  'any valid selection by integers, slices or integer collections (duplicates removed), '
  'with the requested dtype, while invalid or empty selections are access errors.',
  ['inputs'],
  'all small integer matrices incl. invalid ones; all sizes x values x selectors',
  'Tests try one or two matrices of each.',
  [B, U], [('wrappers', B + ':KernelMatrixPrecomputed, ConstantKernelMatrix')],
  ['full, diag, size, shape, [...]'],
  'exhaustive enumeration of small matrices and selectors against ndarray behaviour',
  'All matrices and selectors up to the bound.')
p('C21', 'A kernel made from a callable is that callable',
  'A kernel built from a user function returns exactly what the function returns for the '
  'two points with the given extra parameters, each time it is called, for functions, '
  'lambdas, bound methods, partials and callable objects, and its matrices are built from '
  'those values. Non-callables and callables taking fewer than two arguments are '
  'rejected; the name is the given one, else the function\'s own.',
  ['inputs', 'configurations'],
  'all kinds of callables x parameters x names x points',
  'One test wraps one function.',
  [B, U], [('wrapping', B + ':KernelFromCallable')], ['kernel(x, y), name'],
  'exhaustive enumeration of callable kinds, parameters and points',
  'All combinations of the menus.')
p('C22', 'The match-count kernel counts equal categorical values',
  'The match-count kernel returns the number of positions at which two equally long '
  'vectors of strings agree, or that number divided by the length when the fraction is '
  'requested; it is symmetric, works for arrays and lists of strings of differing widths, '
  'lengths, cases and scripts, and builds correct kernel matrices from categorical '
  'samples. Vectors of different lengths, more dimensions, or numeric content are '
  'rejected.',
  ['inputs'],
  'all pairs of string vectors over small alphabets',
  'Tests use random strings, and compare with a copy of the formula.',
  [C], [('counting', C + ':MatchCountKernel')], ['kernel(x, y)', 'KernelMatrix.full'],
  'exhaustive enumeration of all pairs of vectors over small alphabets',
  'All pairs up to the stated length over the alphabet; length ladder.')
p('C23', 'Pairwise similarity, ideal kernel and matrix correlation are right',
  'The ideal kernel is the outer product of the targets with themselves; the correlation '
  'of two kernel matrices is the Pearson correlation over all their entries; the pairwise '
  'similarity of a set of kernel matrices is the symmetric matrix whose entry (i, j) is '
  'the correlation or centered alignment (0 when undefined) of the full matrices of '
  'members i and j. The members are not changed and unknown metrics are rejected.',
  ['inputs', 'configurations'],
  'all small target vectors and all small sets of kernels',
  'Tests check shapes and symmetry for one bucket.',
  [S, O], [('similarity', S + ':pairwise_similarity, ideal_kernel, correlation_km')],
  ['return values'],
  'exhaustive enumeration of target vectors, matrix pairs and kernel sets',
  'All combinations over the grids.')
p('C24', 'Estimator parameters round-trip and clones behave alike',
  'For every estimator the parameters passed to the constructor are returned by '
  'get_params, changed individually by set_params (which returns the estimator and leaves '
  'the others alone), and used by the next fit; a scikit-learn clone has the same '
  'parameters, is unfitted, and fitted on the same data predicts the same. Parameters '
  'set before fitting have the same effect as passing them to the constructor.',
  ['configurations', 'histories'],
  'all subsets and orders of parameter changes, with fits in between',
  'The generic scikit-learn checks use default parameters only.',
  [A], [('parameter handling', A)], ['get_params, set_params, clone, predict'],
  'exhaustive enumeration of parameter-change sequences against a dictionary model',
  'All sequences up to the stated depth over the parameter menus.')
p('C25', 'Copies and pickles are equivalent and independent',
  'A deep copy or a pickle round-trip of a kernel function, kernel matrix (in any state '
  'of evaluation), kernel set, bucket, composite or fitted estimator returns the same '
  'values and predictions as the original, and afterwards using either of them never '
  'affects the other.',
  ['histories', 'configurations'],
  'all object kinds x access histories before copying x operations on either one after',
  'No test copies or pickles anything.',
  [B, A, S], [('plain instance state', B)], ['accessors of original and copy'],
  'exhaustive enumeration of histories before and after the copy',
  'All histories up to the stated depth before and after the copy.')

p('C26', 'Concurrent predictions and fits do not influence each other',
  'When several threads predict with the same fitted estimator, or fit and predict with '
  'different estimators (also ones sharing a kernel function or kernel bucket), every '
  'thread gets exactly the result it would get alone on its own data, under every '
  'interleaving, and results obtained afterwards are right too.',
  ['schedules', 'inputs'],
  'all interleavings of two to three threads, up to a preemption bound, at the lines of '
  'the library',
  'No test uses more than one thread.',
  [A, B], [('prediction on a fitted estimator', A)], ['predict, fit'],
  'stateless exploration of the real code under a controlled scheduler, all schedules up '
  'to a preemption bound',
  'Preemption points at every line of the library; calls into numpy, scipy and '
  'scikit-learn are atomic.')
p('C27', 'Estimators give fold-exact results inside scikit-learn model selection',
  'Inside cross-validation, cross-validated prediction, grid search and pipelines of '
  'scikit-learn, the estimators give on every fold the predictions and scores of an SVM '
  'trained on the kernel matrix of exactly that fold\'s training data with exactly the '
  'parameters under evaluation; the best parameters are those with the best mean score, '
  'the refitted estimator is the one trained on all data with them, and neither the '
  'given estimator nor the given data is changed.',
  ['inputs', 'configurations', 'histories'],
  'all splits of a small sample x labelings x estimators x parameter grids x pipelines',
  'The tests run a common estimator checklist; no fold result is compared with anything.',
  [A], [('estimator protocol', A)],
  ['cross_val_score, cross_val_predict, GridSearchCV, Pipeline, predict, score'],
  'exhaustive enumeration of splits, labelings and parameter grids against fold-by-fold '
  'references',
  'All splits of 6 points into train and test x labelings x parameter grids of the menus.')
p('C28', 'Failed fits and predictions leave no wrong results behind',
  'When a kernel evaluation fails (by an error or an interrupt) while a composite kernel '
  'is fitted, an estimator is fitted or predicts, or kernels are ranked or compared, or '
  'when a refit is refused because of its data, the failure is reported; results '
  'obtained later are those of the data attached or last completely fitted, or are '
  'refused, and never a partial result or a mixture of two fits. Completing the '
  'operation later gives the right results.',
  ['crash points', 'histories', 'inputs'],
  'all kernel evaluations of all operations as failure points x kinds of failure x '
  'operations before and after',
  'No test makes a fit or prediction fail midway.',
  [A, B, R], [('fit and predict', A), ('composite fit', B)],
  ['fit, predict, composite, full, optimal_kernel'],
  'exhaustive fault injection at every kernel evaluation of every operation of the '
  'enumerated histories',
  'Every evaluation as a failure point, three kinds of failure, followed by reads, '
  'retries and refits.')
p('C29', 'Values that are not finite are announced and passed through',
  'When computing a complete kernel matrix (dense, sparse or normalized) gives NaN or '
  'infinite values, a KernelMethodsWarning is issued, and none is issued when all values '
  'are finite, whatever was read or attached before. The values are returned as the '
  'kernel function gave them: undefined values are neither replaced nor dropped in the '
  'matrix, its blocks, diagonal, normalized form, Frobenius norm, composites and linear '
  'combinations, and the entries of other pairs are unaffected in the unnormalized '
  'forms. Kernel machines refuse to be fitted on or to predict from such values.',
  ['inputs', 'histories'],
  'all placements of NaN, +Inf and -Inf in small kernel matrices x one or two samples x '
  'orders of reads and attachments',
  'No test looks at the warning or at the other entries when a value is not finite.',
  [B, O, U], [('warning', B), ('contains_nan_inf', U)],
  ['full, full_sparse, [:, :], normed_km, frob_norm, composites, warnings'],
  'exhaustive enumeration of the placements of non-finite values and of read histories on '
  'the real code',
  'All matrices up to 3x3 over {1, NaN, Inf} (2x2 also -Inf), all first and second reads, '
  'single values in matrices up to 101 points.')
p('C30', 'Requests that make no sense are refused',
  'Invalid requests are refused with an error and never answered by a default, a guess or '
  'a truncated computation: unknown names of ranking methods, base learners, sampling '
  'strategies, similarity metrics and normalization methods (letter case aside); numbers '
  'of targets, sample weights or kernel weights that differ from the number of points or '
  'kernels; vectors, samples and matrices of mismatched or wrong dimensions, or not of '
  'numbers; objects of a wrong type in place of kernels, sets, buckets or flags; reading '
  'or predicting before attaching or fitting (checks of kernel inputs that were '
  'explicitly skipped aside). A refused request leaves the objects '
  'involved unchanged and usable.',
  ['inputs', 'histories'],
  'all near misses of all names, all wrong lengths and shapes up to a bound, a menu of '
  'wrong types, at all public entry points',
  'The tests try a few invalid values per function.',
  [R, S, A, B, O, U], [('argument checks', U)],
  ['rank_kernels, find_optimal_kernel, get_estimator, make_kernel_bucket, fit, predict, '
   'attach_to, operations'],
  'exhaustive enumeration of invalid arguments within stated bounds at the real entry '
  'points, with the state of the objects compared afterwards',
  'Every name with one character removed, replaced, doubled or added; every length up to '
  'twice the right one; shapes up to 6x6.')

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + '\n')
built = [d['id'] for d, _, _ in P
         if os.path.exists(os.path.join(V, 'mc/props', d['id'].lower() + '.py'))]
m = dict(version=1, setup_cmd='./setup.sh',
         checks=[dict(property=d['id'], quick_cmd='./check ' + d['id'],
                      thorough_cmd='./check {} --tier thorough'.format(d['id']),
                      technique='model checking: ' + t, level='model_checking',
                      level_note=n) for d, t, n in P if d['id'] in built],
         not_applicable=[dict(property=d['id'], reason='check not built yet')
                         for d, _, _ in P if d['id'] not in built],
         notes='No hooks: the checks use only the public API of /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties;', len(built), 'claimed')
