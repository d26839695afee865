"""Entries of properties P01 to P20: (id, title, statement, over, quantifier text, why tests can't, files, mechanism, observe_at)"""
E = 'aideme/explore/'
D = 'aideme/active_learning/dsm/'

ENTRIES = [
 ('P01', 'Labeled, inferred and unknown points always partition the dataset',
  'After any sequence of labeling, inference, unlabeling and clearing operations on a dataset, each data point is in exactly one of the labeled, inferred and unknown sets: the one the operations put it in. Every size, listing, and lookup by index agrees with this, always pairing an index with its own data row, and an operation that is rejected leaves the dataset as it was.',
  ['histories', 'inputs'], 'all sequences of partition operations over any dataset and any index type, including empty, repeated, already moved and unknown indexes',
  'Tests move points a handful of times and look at one listing; the in-place swap and offset arithmetic depends on the whole history and on the order of points inside a batch.',
  [E + 'partitioned.py', E + 'index.py'], [('swap of rows across partition boundaries', E + 'partitioned.py'), ('lookup of positions by index', E + 'index.py')],
  ['PartitionedDataset.labeled / inferred / unknown / *_size / training_set / data']),
 ('P02', 'Training data pairs every labeled point with the label the user gave to it',
  'After any history of labeling, unlabeling and partial labeling, the training set and the labeled set of a dataset contain exactly the points currently labeled by the user, each with its own data row, its most recent final label and its own partial labels. The batch of most recent labels holds exactly the points of the last labeling, and points which are not labeled have no label.',
  ['histories', 'inputs'], 'all histories of labeling operations, in any order of points and batches',
  'Rows are permuted in place at every operation, so a wrong pairing shows only after specific orders of moves; tests use one or two.',
  [E + 'partitioned.py', E + 'labeledset.py'], [('labels kept aligned with permuted rows', E + 'partitioned.py')], ['PartitionedDataset.training_set / labeled_set / last_labeled_set']),
 ('P03', "Data, labels and lists handed over by the caller are never modified",
  'No operation on a dataset, no complete exploration and no call of a learner, metric, sampler or noise injector changes an object the caller passed in: data arrays (unless copying was switched off explicitly), labels, indexes, label sets, partitions and modes, lists of callbacks and lists of convergence criteria keep their contents. Data handed over without copying is at most reordered row-wise.',
  ['histories', 'configurations'], 'all histories of operations and all explorations, with copying on or off',
  'A mutated argument is visible only to a caller who reuses it, which tests of single runs do not.',
  [E + 'partitioned.py', E + 'labeledset.py', E + 'manager.py', E + 'explore.py', 'aideme/utils/noise.py', 'aideme/active_learning'], [('copies on construction', E + 'partitioned.py')], ['arguments after the call']),
 ('P04', 'The exploration manager follows its protocol of phases, training and stopping',
  'After any sequence of updates, point requests, convergence tests, callback computations and clears, a manager with an initial sampler is in the initial sampling phase exactly until both a positive and a negative point are labeled, trains the learner exactly once per accepted update outside of it, with all labels given so far, and proposes sampler points or learner points accordingly, never a labeled one. It reports convergence exactly when a criterion holds or every point is labeled, computes callbacks exactly at every configured number of iterations and at convergence, and clearing returns it to its initial state.',
  ['histories', 'configurations'], 'all sequences of manager operations, samplers, skips, criteria and random outcomes',
  'Tests cover one straight-line session; interleavings of requests, rejected updates and clears are never tried.',
  [E + 'manager.py'], [('phases, iteration counter, callback scheduling', E + 'manager.py')], ['ExplorationManager public methods']),
 ('P05', 'A pool-based run reports exactly the exploration that took place',
  'For every labeling of the pool, sampler, ranking, subsampling size, callback skip, set of convergence criteria, noise injector and outcome of the random draws, a run labels every point at most once with the label of the labeled set, trains on all labels so far, stops exactly when a criterion holds or no point is left, and reports for every iteration the points labeled, their labels, the phase and the callback metrics of that iteration. A noise injector is called once per iteration of the exploration phase, with the number of iterations before it and the user labels, which remain what is reported as labels; training uses the labels that the injector returned, which are reported as noisy labels.',
  ['inputs', 'configurations', 'schedules'], 'all labelings of small pools, all outcomes of random draws and all configurations of the menu',
  'Runs depend on random draws; a test executes one seed.',
  [E + 'explore.py', E + 'manager.py', 'aideme/initial_sampling.py', 'aideme/utils/convergence.py'], [('exploration loop', E + 'explore.py')], ['metrics yielded by runs', 'calls to the learner']),
 ('P06', 'Runs are reproducible and independent of each other',
  'A run is determined by its seed: executing it again, in any position of a list of runs, after other runs, or after other sessions on the same exploration and learner objects that were completed or abandoned at any iteration, gives the same labeled points, labels and metrics as a fresh exploration with this seed.',
  ['histories'], 'all sequences of sessions and all iterations at which runs are abandoned',
  'Tests run an exploration once; state leaking between runs, or from abandoned runs, needs sequences of sessions.',
  [E + 'explore.py', E + 'manager.py', 'aideme/utils/random.py'], [('clear and seeding at start of runs', E + 'explore.py')], ['metrics yielded by runs']),
 ('P07', 'Label prediction of the whole dataset never contradicts the user',
  'Predicting the labels of all points returns one label per point: the label given by the user where there is one, and otherwise the prediction of the learner for that very point, whatever the history of labeling and of inferred points. Prediction never changes the dataset.',
  ['histories', 'inputs'], 'all histories of partition operations and all predictions of the learner',
  'Tests use one dataset state; alignment depends on the permutation produced by the history.',
  [E + 'partitioned.py'], [('prediction over all partitions', E + 'partitioned.py')], ['PartitionedDataset.predict_user_labels']),
 ('P08', 'The next point is an unlabeled point of minimal rank within the subsample',
  'By default, the next point to label is always one the user has not labeled (unknown or inferred); without subsampling it is one of the unlabeled points of minimal rank, each of which can be returned, and with subsampling one of minimal rank among a random subset of the requested size of the unlabeled points, where every subset can be drawn; its score is logged as the minimal rank. Random sampling can return every unlabeled point, and asking for a point changes nothing in the dataset.',
  ['inputs', 'schedules'], 'all partitions of the dataset, score vectors, subsample sizes and outcomes of the random draws',
  'Tests look at one random outcome and one partition.',
  ['aideme/active_learning/active_learner.py', 'aideme/active_learning/random.py', E + 'partitioned.py'], [('subsampling and arg-min', 'aideme/active_learning/active_learner.py')], ['ActiveLearner.next_points_to_label']),
 ('P09', 'Noise injection flips labels consistently and only when it should',
  'Label noise never touches the iterations it was told to skip, keeps points and order, and leaves the labeled set given to it unchanged; a flipped negative point becomes positive in all partial labels, and a flipped positive point becomes negative in exactly one of them. With noise level zero nothing is flipped, with level one every label is, and otherwise every combination of flips can occur.',
  ['inputs', 'schedules'], 'all labelings with 0 to 3 partial labels, noise levels, iterations and outcomes of the draws',
  'The flips are random; tests use one seed.',
  ['aideme/utils/noise.py'], [('label and partial label flips', 'aideme/utils/noise.py')], ['noisy labeled set']),
 ('P10', 'Initial samplers return the requested sample whenever there is one',
  'The stratified sampler returns distinct points with the requested numbers of positive and negative labels (negative in all subspaces, if asked for), can return every such sample, and raises an error when there is none; the random sampler returns distinct unlabeled points of the requested number, or all of them if there are fewer, and can return every such sample. Sampling does not change the dataset or the labels.',
  ['inputs', 'schedules'], 'all labelings and partial labelings of small datasets, sample sizes and outcomes of random draws',
  'Samples are random; tests check one draw of one labeling.',
  ['aideme/initial_sampling.py'], [('stratified and random sampling', 'aideme/initial_sampling.py')], ['samplers']),
 ('P11', 'The interactive session accepts exactly well-formed labels and trains on them',
  'In a command line session an answer is accepted if and only if it consists of the requested number of labels, each 0 or 1, separated by blanks; anything else is asked again without losing previous labels. The learner is trained with exactly the labels typed in, it ranks as many unlabeled points as subsampling allows, and the session ends exactly when the user, the convergence criteria or the lack of points says so.',
  ['inputs', 'histories'], 'all input strings up to a length and all sequences of answers',
  'Tests type one well-formed answer; parsing must hold for every string.',
  [E + 'command_line_explore.py'], [('prompt loop and parsing', E + 'command_line_explore.py')], ['prompts, training data']),
 ('P12', 'Metrics, metric logs and convergence criteria compute what they define',
  'Classification scores equal their definitions for every vector of labels and predictions, including undefined ratios, which are reported as zero and never as NaN; the three-set metric is the share of certainly positive points among points which are not certainly negative, and prediction entropy the mean entropy of predicted probabilities. The metric log returns exactly what was logged since it was last flushed, combined as asked for (overwritten, summed or appended), and convergence criteria hold exactly when the logged metrics and dataset sizes satisfy them.',
  ['inputs', 'histories'], 'all label vectors up to a size, all three-set partitions and all sequences of log operations',
  'Tests compute one confusion matrix; undefined ratios and empty sets are not sampled.',
  ['aideme/utils/metrics.py', 'aideme/utils/metric_logger.py', 'aideme/utils/convergence.py'], [('scores', 'aideme/utils/metrics.py')], ['returned metrics']),
 ('P13', 'The polytope model claims a label only for points where convexity forces it',
  'After any labels consistent with a convex positive region, the model predicts positive only for points in the convex hull of the positive points, negative only for points for which any convex region containing them and all positives would contain a negative point, and unknown otherwise. As soon as the positive points do not all lie in one hyperplane (in one dimension: always), it predicts positive and negative for all of these points, and no query point is ever omitted from the answer.',
  ['inputs'], 'all consistent labeled sets and all query points',
  'Tests use one or two hulls in general position; degenerate hulls, collinear points, and single positives are where hull and cone code differs.',
  [D + 'polytope.py', D + 'convex/convex.py', D + 'convex/one_dim_convex.py', D + 'convex/geometry.py'], [('convex hull and negative cones', D + 'convex/convex.py')], ['PolytopeModel.predict']),
 ('P14', 'The polytope model is invalid exactly when the labels contradict convexity',
  'After any history of updates the model reports a conflict only if some negative point lies in the convex hull of the positive ones (a point with both labels included), and always does at the first update that creates such a conflict if the positive points do not all lie in one hyperplane. An invalid model answers unknown everywhere and refuses further updates, and clearing makes it as good as new.',
  ['histories', 'inputs'], 'all labeled sets, orders and batches, clears and reuse',
  'Tests have one conflict in one order; conflicts may come from either class, first or last, within a batch or across batches.',
  [D + 'polytope.py', D + 'convex/convex.py'], [('conflict detection', D + 'polytope.py')], ['PolytopeModel.update / is_valid / clear']),
 ('P15', 'What a polytope model knows does not depend on order or batching of labels',
  'Giving the same labeled points in any order, divided into batches in any way, leads to the same validity and the same predictions for all points.',
  ['histories'], 'all permutations and divisions into batches of every labeled set',
  'A metamorphic property over all histories; tests feed one history.',
  [D + 'polytope.py', D + 'convex/convex.py'], [('incremental hull', D + 'convex/convex.py')], ['PolytopeModel.predict / is_valid']),
 ('P16', 'The flipping polytope keeps the convexity assumption that labels leave possible',
  'A model which may assume the positive or the negative region to be convex is valid as long as at least one assumption is consistent with all labels received, predicts like the model of the first assumption while that is consistent and like the other afterwards, and never forgets labels received before the change. Updates and validity reported by it agree with this after every batch, and clear makes it forget everything.',
  ['histories', 'inputs'], 'all sequences of labeled points and divisions into batches',
  'The change of assumption happens only for specific label histories; tests use one.',
  [D + 'polytope.py'], [('flip on conflict', D + 'polytope.py')], ['PersistentPolytope, FlippedPolytope']),
 ('P17', 'The factorized polytope combines its subspaces soundly',
  'With data divided into subspaces and the final label being the conjunction of partial labels, the factorized model predicts positive exactly where all valid subspaces say so, negative where one of them does, and unknown otherwise; subspaces with contradictory labels are disregarded without disturbing the others. Every subspace receives every label that concerns it, and the model is valid as long as one subspace is.',
  ['histories', 'inputs', 'configurations'], 'all sequences of labels and partial labels, batches, subspace divisions and modes',
  'Tests use one factorization and one batch.',
  [D + 'polytope.py'], [('per-subspace update and product', D + 'polytope.py')], ['FactorizedPolytope']),
 ('P18', 'The categorical model and learner know exactly the labeled categories',
  'A categorical subspace model predicts the label seen for a category and unknown for categories not seen, whatever the order and batching of labels, and is invalid exactly when a category received both labels. Predictions, probabilities and ranks of the learner built on it agree with this.',
  ['histories', 'inputs'], 'all label sequences over up to four categories',
  'Tests label one category of each kind.',
  [D + 'polytope.py', 'aideme/active_learning/version_space/categorical.py'], [('category sets', D + 'polytope.py')], ['CategoricalPolytope, categorical learner']),
 ('P19', 'The set-valued model deduces exactly what labels of sets imply',
  'For set-valued attributes, where a set is positive iff all its elements are, the model predicts exactly what every assignment of elements consistent with the labels agrees on, and is invalid exactly when there is no such assignment, for any order and batching of labels.',
  ['histories', 'inputs'], 'all label sequences over sets of up to four elements',
  'Deduction chains need several sets in specific orders.',
  [D + 'polytope.py', 'aideme/active_learning/version_space/categorical.py'], [('element deduction', D + 'polytope.py')], ['MultiSetPolytope, multi-set learner']),
 ('P20', 'Conjunctive label inference is sound and complete',
  'From final and partial labels received so far, the inference module derives a partial label exactly when all conjunctive hypotheses consistent with these labels agree on it, for any order and batching and also after clearing, and rejects labels that contradict each other.',
  ['histories', 'inputs'], 'all sequences of labeled points over small product spaces',
  'Deductions chain across points and subspaces; tests check one chain.',
  ['aideme/active_learning/inference/inference.py'], [('propagation of deductions', 'aideme/active_learning/inference/inference.py')], ['inference results']),
]
