"""Entries of properties P21 and later."""
A = 'aideme/active_learning/'
D = A + 'dsm/'
V = A + 'version_space/'
H = V + 'hit_and_run/'
F = A + 'factorization/'

ENTRIES = [
 ('P21', 'The dual space model combines its polytope with the active learner soundly',
  'During an exploration with a dual space model, the points moved to the inferred set are exactly points whose label the polytope of all labels received so far is certain about, and they are not proposed as long as there are unknown points. Its predictions are the certain labels of this polytope where there are any and those of the active learner elsewhere, and once the labels contradict convexity it behaves like the active learner alone. Asking for a point always ends with one, and clearing makes it as good as new.',
  ['histories', 'schedules', 'configurations'], 'all labelings of small pools, initial batches, modes, sampling probabilities, subsample sizes and outcomes of the random draws',
  'The model depends on the labels, the order of labeling and random draws of a whole session; tests do not run it in an exploration.',
  [D + 'base.py', D + 'dsm.py', D + 'model.py', 'aideme/explore/partitioned.py'], [('update and inference after labels', D + 'base.py'), ('polytope model and its activation', D + 'model.py')],
  ['DualSpaceModel.fit_data / next_points_to_label / predict / predict_proba']),
 ('P22', 'Saved and copied polytope models continue like the original',
  'A polytope model that is pickled or copied at any point of a history answers like the original, and keeps doing so after any further labels and clears. Copies are independent: what happens to one of them does not affect the other.',
  ['histories', 'crash_points'], 'all labeled sets up to a size, all divisions into batches, all moments of saving',
  'A restored model shows its defects only in updates after the restore; tests do not restore anything.',
  [D + 'polytope.py', D + 'convex/convex.py', D + 'convex/one_dim_convex.py', D + 'convex/geometry.py'], [('state of hulls and cones', D + 'convex/convex.py')],
  ['pickle and deepcopy of polytope models']),
 ('P23', 'Every version space sample separates the labeled data',
  'After training on any linearly separable labels, at once or label by label, with any sampler setting and whatever the random draws are, every sampled classifier of the linear version space labels every training point as the user did and has norm at most one. Predicted probabilities are the share of samples voting positive, labels their majority, and ranks the distance of this share from one half; clearing the learner makes it behave as a new one.',
  ['inputs', 'histories', 'schedules'], 'all separable labeled sets over a grid, all sampler settings, and all outcomes of a menu of random directions and steps',
  'Sampling is random and tests fix one seed; caches of samples and ellipsoids carry over only in longer histories.',
  [H + 'hit_and_run.py', H + 'polyhedral_cone.py', V + 'linear.py', V + 'base.py'], [('hit-and-run chain', H + 'hit_and_run.py'), ('feasible starting point', H + 'polyhedral_cone.py')],
  ['LinearVersionSpace.fit / predict / predict_proba / rank', 'samples']),
 ('P24', 'The rounding ellipsoid always encloses the version space',
  'While an ellipsoid is fitted to any version space with interior, by any strategy, from scratch or reusing the ellipsoid of a previous larger version space, each intermediate ellipsoid contains the whole version space. Each cut is the minimal ellipsoid of the part that is kept, and the final one is round enough for its inner ellipsoid to lie within the version space.',
  ['inputs', 'histories', 'configurations'], 'all version spaces given by small integer constraints in 2 to 4 dimensions, all strategies, all sequences of cuts of a menu',
  'Losing part of the version space biases samples without any visible failure; tests check one ellipsoid.',
  [H + 'rounding.py', H + 'ellipsoid.py'], [('deep cuts', H + 'ellipsoid.py'), ('choice of cuts and stopping', H + 'rounding.py')], ['ellipsoids of RoundingAlgorithm']),
 ('P25', 'Geometric queries on the version space body are exact',
  'For every set of labeled constraints, membership in the version space body is exact, an interior point is returned exactly when there is one, a separating hyperplane is returned exactly for points outside, cuts the point off and never cuts into the body, and a line meets the body in exactly the segment that is reported.',
  ['inputs'], 'all constraint sets with small integer coordinates in 2 to 4 dimensions, all points and lines of a grid',
  'Degenerate and redundant constraints, and lines parallel to faces, are exactly what few examples leave out.',
  [H + 'polyhedral_cone.py'], [('separation, intersection, interior point', H + 'polyhedral_cone.py')], ['BoundedPolyhedralCone']),
 ('P26', 'The kernel version space trains in the feature space of its kernel',
  'Inner products of the features which the kernel version space gives to its linear model equal the kernel values of the points, for every kernel, training set and test point, repeated points included. After training on any labels of distinct points, at once or point by point, predicted labels of the training points are the labels given by the user.',
  ['inputs', 'histories', 'schedules'], 'all sequences of training points of a grid, all labelings, kernels, sampler settings and outcomes of a menu of random draws',
  'In-place triangular solves and cached decompositions depend on memory order, repeated points and the history; tests check one random matrix.',
  [V + 'kernel.py', A + 'kernel.py', V + 'base.py'], [('Cholesky features', V + 'kernel.py')], ['KernelVersionSpace', 'KernelBayesianLogisticRegression']),
 ('P28', 'The factorization loss, its gradient and its predictions are exact',
  'For any weights, data, labels, penalty and factorization, the loss that factorization learners minimize is the mean cross-entropy of labels under the product of the subspace probabilities plus the penalty, the gradient is its derivative (also for extreme margins), and predictions are those probabilities and their thresholds at one half. With batches, every epoch goes once through all points whatever their order, and the gradient is the one of the batch.',
  ['inputs', 'configurations', 'schedules'], 'all weight matrices over an alphabet with extreme values, all labelings of small data sets, all orders of points in batches',
  'Wrong derivatives only show as worse training; tests compare a few random points.',
  [F + 'linear.py', F + 'utils.pyx'], [('loss and gradient', F + 'linear.py'), ('log-probabilities', F + 'utils.pyx')], ['LinearFactorizationLearner.fit through its optimizer', 'predict / predict_proba / partial_proba']),
 ('P29', 'Penalties, their gradients, proximal operators and optimality tests agree',
  'For every penalty, with any strength and division of features into groups, the loss is its formula, the gradient is in the subdifferential of the loss at every point (zero rows included), the proximal operator returns the minimizer it is defined by, and the optimality test accepts a vector exactly if it is a sub-gradient. Changing strength or groups of a penalty is the same as creating it with them.',
  ['inputs', 'configurations'], 'all matrices over an alphabet with zeros, all penalties, strengths, groups and step sizes of a menu',
  'Points with zero rows or zero groups are where penalties are not differentiable; tests rarely visit them.',
  [F + 'penalty.py'], [('penalty terms', F + 'penalty.py')], ['loss / grad / proximal / is_subgradient of penalties']),
 ('P30', 'Optimizers follow their algorithms, stop by their rules and keep the best retry',
  'Gradient descent with momentum, noisy gradient descent, Adam, proximal gradient descent and FISTA with any step size rule visit the iterates their definitions prescribe, stop at the first one that satisfies the tolerances or at the iteration limit, report success, loss and iterations correctly, and start afresh when they are used again. Of several retries, a learner keeps the weights with the lowest loss, whatever losses (nan and inf included) the others end with.',
  ['inputs', 'configurations', 'schedules'], 'all optimizers and settings of a menu over quadratic functions from all starting points of a grid; all outcomes of random draws and of retries',
  'State left from a previous run or wrong stopping only shows for some settings; tests check the final point of one run.',
  [F + 'optimization.py', F + 'step_size_scheduler.py', F + 'linear.py'], [('iteration and stopping', F + 'optimization.py'), ('step sizes', F + 'step_size_scheduler.py')], ['minimize of optimizers', 'LinearFactorizationLearner.fit']),
 ('P31', 'Partition selectors return the partition their search is defined to find',
  'The brute-force selector returns the partition of features with the lowest loss among all partitions within the limits on size and number of parts; the greedy one the result of repeatedly merging the two parts that lower the loss most. Limits that no partition satisfies are rejected; classifiers over partitions predict the product of their parts, their loss comes with its derivative, and merging two parts adds their weights and leaves the others alone.',
  ['inputs', 'configurations'], 'all assignments of losses to partitions met in the search (a menu of values), all limits, up to 5 features',
  'Which partitions are considered only shows when the best one is missed; tests use one data set.',
  [F + 'partitioning/learn.py', F + 'partitioning/linear.py'], [('search', F + 'partitioning/learn.py'), ('merging and loss', F + 'partitioning/linear.py')], ['BruteForceSelector, GreedySelector', 'FactorizedLinearClassifier']),
 ('P32', 'Factorizations are the maximal subspaces, and switching waits for a stable one',
  'The factorization computed from a linear model consists of the maximal sets of relevant features (or groups of features), those with more than an average share of the weights, of its subspaces, each once and in order, and the partial label of a point is positive where the subspaces contained in it are, a shared one counting in part. A swap to the full factorization is allowed exactly if the same factorization was found the required number of times in a row and corresponds one-to-one to the subspaces of the user, and then reorders subspaces accordingly.',
  ['inputs', 'histories'], 'all small relevance matrices, all sequences of factorizations and user factorizations of a menu, all weight patterns of up to 3 subspaces',
  'Stability is a matter of history, and the correspondence a matter of permutations; tests check single matrices.',
  [F + 'learn.py', F + 'active_learning.py'], [('factorization from weights', F + 'learn.py'), ('stability and compatibility', F + 'active_learning.py')], ['compute_factorization', 'FactorizationManager', 'compute_factorization_and_partial_labels']),
 ('P27', 'Subspace learners see their own columns and labels and are combined as asked',
  'A learner for divided features trains one learner of the requested kind per subspace with exactly its columns and its partial labels. Final labels, probabilities and ranks of any points are the requested combinations of those of the subspaces. Changing the division or clearing leaves nothing of the former one behind, and wrong modes or numbers of subspaces are rejected.',
  ['inputs', 'histories', 'configurations'], 'all matrices of partial values of an alphabet, all divisions and sequences of fit, new division and clear of a menu, all labelings of small data sets',
  'A wrong column, a leftover subspace or a wrong connector changes results only for some divisions and values; tests do not cover these learners.',
  [V + 'subspace.py', V + 'categorical.py', A + 'active_learner.py'], [('division and combination', V + 'subspace.py')], ['SubspatialVersionSpace, SubspatialSimpleMargin, SubspaceLearner']),
 ('P33', 'The swap learner changes phase when configured and trains on what it should',
  'The swap learner uses its active learner up to the configured iteration, then trains the factorized linear model on the predictions of this learner (or on the labels), refines it with all labels from its previous weights, and once the factorization is stable hands partial labels and subspaces in the order of the user to the factorized learner, which is the only one used from then on. Predictions, probabilities and ranks are those of the component in charge. Clearing restarts the process.',
  ['histories', 'configurations', 'schedules'], 'all sequences of models found by the optimizer (of a menu) in a session, for all settings of the menu, also after another session and clear',
  'What a phase is given depends on the whole session and its former weights; tests have no session with this learner.',
  [F + 'active_learning.py', F + 'learn.py'], [('phases and swap', F + 'active_learning.py')], ['SwapLearner, SimplifiedSwapLearner: fit_data / predict / predict_proba / rank / clear']),
 ('P34', 'Pruning keeps the relevant subspaces; copies and restarts keep nothing else',
  'Pruning a factorized linear model removes exactly the subspaces which are positive on all data or have no weight, and changes nothing else. Copies predict like the original and are independent of it. The factorized uncertainty sampler continues from its previous weights, follows its penalty schedule, prunes if asked to, and starts afresh after clear.',
  ['inputs', 'histories', 'configurations'], 'all weight matrices over an alphabet, all sequences of fit, clear and copy on up to 3 models, all sequences of models found by the optimizer, all schedules',
  'Shared arrays and leftover penalties show only in later steps of a session; tests call fit once.',
  [F + 'learn.py', F + 'linear.py', F + 'active_learning.py'], [('pruning', F + 'learn.py'), ('copy and weights', F + 'linear.py'), ('sampler', F + 'active_learning.py')],
  ['prune_irrelevant_subspaces', 'LinearFactorizationLearner.copy / clear', 'FLMUncertaintySampler']),
 ('P37', 'Kernels, kernel features and kernel factorization models are exact',
  'Kernel matrices, diagonals and jitter equal the kernel computed point by point, and inner products of transformed features of any points (also divided into subspaces, fitted again or cloned) equal the kernel values. The loss, its gradient and the probabilities of a kernel factorization learner are those of the linear model over these features. Interaction terms are the products of pairs of features.',
  ['inputs', 'configurations'], 'all sequences of up to 3 points of a grid, repetitions included, for all kernels and divisions, weights and labels of a menu',
  'Repeated points, sets of different sizes and refitting are what examples with one random matrix leave out.',
  [A + 'kernel.py', F + 'kernel.py', F + 'interaction.py'], [('kernels and features', A + 'kernel.py'), ('kernel factorization', F + 'kernel.py')], ['Kernel, KernelTransformer, FactorizedKernelTransform', 'KernelFactorizationLearner', 'add_interaction_terms']),
 ('P35', 'The Bayesian kernel learner computes the Laplace approximation it promises',
  'After training on any labels, repeated points and single classes included, the Laplace versions of the Bayesian version space give each point the probability of the Laplace approximation of Bayesian logistic regression with the configured prior, intercept and kernel, the label of its threshold at one half, and a rank by the distance of the probability from one half. Training again or clearing leaves nothing of the former training behind.',
  ['inputs', 'histories', 'configurations'], 'all labelings of all sequences of up to 4 training points of a grid, priors, intercepts and kernels of a menu, sessions with clear',
  'Repeated points, flat priors and other kernels change the formulas used; no test runs this learner without Stan.',
  [V + 'bayesian/laplace.py', V + 'base.py'], [('posterior approximation', V + 'bayesian/laplace.py')], ['BayesianLinearVersionSpace, BayesianKernelVersionSpace with Laplace samplers: predict_proba / predict / rank']),
 ('P36', 'Query by disagreement trains on labels and background, asks where models differ',
  'Query by disagreement trains its classifier on the labeled points, and one positive and one negative variant on the labeled points with full weight plus background points of the requested number and weight, drawn among unlabeled ones, all of them reachable. Points where the variants disagree come first, and predictions are those of the first classifier. Further trainings and clear start afresh.',
  ['histories', 'configurations', 'schedules'], 'all divisions of up to 5 points into labeled, inferred and unknown ones, labelings, background sizes and weights, and outcomes of the random choices, over sessions of up to 3 trainings',
  'Background samples are random and shrink at the end of an exploration; no test runs this learner.',
  [A + 'query_by_disagreement.py'], [('background sample and variants', A + 'query_by_disagreement.py')], ['QueryByDisagreement.fit_data / rank / predict / next_points_to_label']),
 ('P38', 'Entropy reduction ranks points by the disagreement left after asking them',
  'The entropy reduction learner ranks each point by the expected disagreement about a sample of the data that remains after its label is known, computed over the sampled classifiers agreeing with each label, for any labels, kernel, sample size and outcome of the draws. Each label has the weight of its probability, and a label no classifier predicts contributes nothing; ranking in parts gives the same ranks. The data sample consists of points of the dataset, and predictions are those of the version space.',
  ['inputs', 'histories', 'schedules'], 'all labelings of training points of a grid, kernels and sampler settings of a menu, all data samples, and all outcomes of a menu of random directions and steps, over sessions with further labels and clear',
  'Unanimous points divide by zero and stale samples only show in later trainings; no test computes these ranks.',
  [A + 'entropy.py', V + 'kernel.py', V + 'linear.py'], [('expected entropy', A + 'entropy.py')], ['EntropyReductionLearner.fit_data / rank']),
 ('P39', 'Margin and uncertainty learners ask the points closest to the decision boundary',
  'After training on any labels of both classes the margin learners predict like the trained support vector machine, and rank every point by its distance to the boundary (simple margin) or by the worse ratio of the two margins obtained with either label for the point (ratio margin); a point whose margin vanishes for one label is never preferred. Uncertainty sampling proposes points whose probability is nearest to one half, random sampling any unlabeled points, without repetition, each choice being reachable. Ranks of a point do not depend on other points or earlier questions, and its probability is that of the positive class, also for classifiers with one column per class.',
  ['inputs', 'configurations', 'schedules'], 'all labelings of all sequences of up to 4 training points of a grid, kernels and costs; all divisions of up to 5 points with all probabilities of a menu and outcomes of draws',
  'Copies of labeled points and contradictory labels make margins vanish; no test ranks points with these learners.',
  [A + 'margin.py', A + 'uncertainty.py', A + 'random.py', A + 'active_learner.py'], [('margins', A + 'margin.py')], ['SimpleMargin, RatioMargin, UncertaintySampler, RandomSampler: rank / predict / next_points_to_label']),
 ('P40', 'Every exported learner completes any exploration, repeatably',
  'With every learner that the package exports, an exploration over any pool and labels with both classes in the first batch runs until every point of the pool is labeled, asks no point twice, and gives after every iteration valid labels, ranks and (where offered) probabilities for all points. Running it again on the same objects with the same random outcomes gives the same results. Asking the learner for predictions has no influence on what follows.',
  ['histories', 'configurations', 'schedules'], 'all labelings of pools of 4 or 5 points, a menu of first batches, subsampling, learners and settings, outcomes of the choices among points',
  'Interaction of learners with the exploration depends on labels, order and state left from earlier runs; tests run no exploration with most learners.',
  ['aideme/explore/explore.py', 'aideme/explore/manager.py', A + '__init__.py', A + 'active_learner.py', V + 'kernel.py', A + 'nlp.py', F + 'active_learning.py', D + 'base.py'], [('loop of an exploration', 'aideme/explore/explore.py'), ('learners', A + 'active_learner.py')],
  ['PoolBasedExploration.run with every learner of aideme.active_learning']),
 ('P41', 'The Stan based Bayesian learner samples the posterior it promises',
  "For any labels, prior, scale, intercept, chain setting and kernel, training asks Stan for the configured number of samples (after warmup, thinned) of the posterior distribution of logistic regression with that prior, given exactly the training data; probabilities are averages of the logistic function over the samples, labels their threshold at one half, and ranks their distance from one half. This holds for every training of a session, for every learner created in a folder with models saved by other ones, and after a process died at any point of saving a model.",
  ['inputs', 'histories', 'crash_points', 'configurations'], 'all labelings of all sequences of up to 3 training points of a grid, all outcomes of samples of a menu, all sessions and sequences of creations up to 4 steps, all positions of crashes while saving',
  'Compiled models are shared through files, so the prior used depends on what earlier processes left; no test runs this learner.',
  [V + 'bayesian/stan.py', V + 'bayesian/linear.py', V + 'linear.py'], [('request and saved models', V + 'bayesian/stan.py'), ('predictions', V + 'linear.py')], ['BayesianLinearVersionSpace, BayesianKernelVersionSpace with Stan sampler: fit / predict_proba / predict / rank', 'calls of pystan.StanModel']),
 ('P42', 'ALUMA preprocessing is a random signed projection of the kernel features',
  'ALUMA preprocessing leaves the data unchanged and returns, for every point, as many values as its margin, loss bound and probability call for. Each of these columns combines the kernel features of the points (or their coordinates) with one random sign per feature, and adds one random sign per point, with the weights that the loss bound calls for; all signs occur, and equal seeds give equal results.',
  ['inputs', 'configurations', 'schedules'], 'all sequences of up to 3 points of a grid, kernels, margins, loss bounds, probabilities and seeds of a menu; all sign vectors',
  'Random projections of one matrix look alike with a wrong scale or missing signs; no test runs this code.',
  [A + 'aluma.py'], [('projection', A + 'aluma.py')], ['aluma_preprocessing']),
 ('P43', 'Settings are accepted exactly within their ranges',
  'Every learner, sampler, optimizer, penalty, kernel, exploration, metric and criterion that checks its settings rejects them when one is outside of its range: numbers of points or iterations below one, negative, infinite or undefined numbers, unknown names, objects which cannot be called, and lists of inconsistent lengths. Settings within their ranges are accepted, alone and in combination, including the documented ways to leave them out.',
  ['inputs', 'configurations'], 'all assignments of an alphabet of values, including all borders, to up to 2 or 3 settings of an object together',
  'Undefined numbers pass comparisons, and a check that is lost shows much later or never; tests try a few values of a few settings.',
  ['aideme/utils/validation.py', 'aideme/initial_sampling.py', F + 'optimization.py', F + 'penalty.py', V + 'hit_and_run/rounding.py', A + 'kernel.py', V + 'subspace.py', 'aideme/explore/explore.py'], [('checks of values', 'aideme/utils/validation.py')], ['constructors and functions of all modules']),
 ('P44', 'Spherical descent for cuts of the rounding ellipsoid follows its rules',
  'The objective for cuts over the sphere is the relative depth of the hyperplane touching the sphere at a point, and its gradient is its derivative along the sphere. Spherical gradient descent stays on the sphere, visits the iterates given by its retraction and step size, or stationary points along the curve with line search, stops at the first one that meets a tolerance or the threshold or at the iteration limit, and reports value, gradient, iterations and convergence of the point it returns. Using an optimizer again starts afresh.',
  ['inputs', 'configurations', 'histories'], 'all ellipsoids after up to 3 cuts of a menu, starting points of a grid, combinations of settings; every iterate',
  'A wrong sign or a stop one iterate early still ends near a minimum in most runs; no test runs this optimizer.',
  [V + 'hit_and_run/rounding.py', V + 'hit_and_run/ellipsoid.py'], [('objective and descent', V + 'hit_and_run/rounding.py')], ['alpha_on_sphere, SphericalGradientDescent.optimize']),
 ('P45', 'Version space samples are the hit-and-run chain that the settings describe',
  'Samples of the version space are states of hit-and-run chains: each step draws a direction and moves to the point at a uniformly drawn fraction of the chord of the version space along it, where directions are those drawn, or with rounding are mapped linearly to the shape of the rounding ellipsoid. A single chain gives the state after the warmup and every thin-th one after it, and several chains give the last states of chains of warmup length from a common starting point. Chains start inside the version space, at a cached sample if caching is on and the labels allow one; without caches training is independent of the past.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'all small separable labeled sets of grids, settings of rounding and caches, settings of the chain, and all sequences of draws of a menu',
  'A wrong shape, a state skipped or a chain not started again still gives points of the version space, with a wrong distribution only.',
  [V + 'hit_and_run/hit_and_run.py', V + 'hit_and_run/polyhedral_cone.py', V + 'hit_and_run/rounding.py'], [('chain, thinning and starting point', V + 'hit_and_run/hit_and_run.py')], ['HitAndRunSampler.sample']),
 ('P46', 'Assembled learners behave as the parts built with the options given to them',
  'Linear, kernel, entropy, Bayesian and divided version spaces, simple margin learners and the simplified swap learner hand every option to the part it belongs to: over any history of trainings and any outcomes of random draws, their labels, probabilities and ranks are those of the parts when these are built with the same options directly. Rounding caches are off without rounding and imply decomposed kernels, and options left out have the same values in all kernel version spaces.',
  ['inputs', 'histories', 'configurations'], 'all combinations of options in which 2 or 3 differ from a base setting, data sets, histories and sequences of draws of a menu',
  'An option that is lost or exchanged leaves a learner that works, and no test passes options through these learners.',
  [V + 'base.py', V + 'linear.py', V + 'subspace.py', V + 'bayesian/base.py', A + 'entropy.py', A + 'margin.py', F + 'active_learning.py'], [('options of the parts', V + 'base.py'), ('assembly of the swap learner', F + 'active_learning.py')], ['fit, predict, predict_proba, rank of the learners']),
]
