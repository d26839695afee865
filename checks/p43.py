import itertools
import math
import os
import shutil
import sys
import tempfile
import types

import numpy as np
from sklearn.linear_model import LogisticRegression

PROPERTY = 'P43'
RULE = 'for every object and function of the table which checks its settings: all assignments of values of the alphabet of each setting (valid ones, their borders, ' \
       'negative, zero, undefined, infinite, fractional, textual values, unknown names, lists of wrong length) to up to 2 settings (thorough: 3) together, the others left ' \
       'at their defaults; it must be rejected exactly if one of the values is outside of its range'
ASSUMPTIONS = ['only settings which the code checks are in the table', 'numbers of other types than int and float are not judged',
               'rejected means that an exception is raised before anything is returned']

NAN, INF = float('nan'), float('inf')

# kind: (valid values, invalid values)
KINDS = {
    'posint': ([1, 3], [0, -1, 2.5, '2', None, INF, NAN, -INF]),
    'posint_none': ([1, 3, None], [0, -1, 2.5, '2', INF, NAN]),
    'nonnegint': ([0, 1, 4], [-1, 2.5, '2', None, INF, NAN]),
    'nonnegint_inf': ([0, 1, 4, INF], [-1, 2.5, '2', None, NAN, -INF]),
    'pos': ([1e-9, 2, 0.5], [0, 0., -1, -0.5, '2', None, INF, NAN]),
    'pos_none': ([1e-9, 2, 0.5, None], [0, 0., -1, -0.5, '2', INF, NAN]),
    'nonneg': ([0, 0., 2, 0.5], [-1, -1e-9, '2', None, INF, NAN]),
    'range': ([0, 1, 0.5, 0., 1.], [-1e-9, 1.0000001, 2, -1, None, '0.5', NAN, INF]),
}


def one_of(valid, invalid):
    return list(valid), list(invalid)


KERNELS = one_of(['linear', 'rbf', 'gaussian', 'poly', 'RBF', 'Poly'], ['', 'laplace', 'lin', 'rbf '])

def f(*args):
    return True


CALLBACKS = one_of([None, [], f, [f], (f, f)], [[f, None], ['f'], [[f]], [f, 3]])


def table():
    """ name, function of keyword arguments, kinds of the settings """
    from aideme import initial_sampling
    from aideme.active_learning import (DualSpaceModel, FactorizedDualSpaceModel, EntropyReductionLearner, FLMUncertaintySampler, KernelVersionSpace,
                                        LinearVersionSpace, QueryByDisagreement, RandomSampler, SimpleMargin, SimplifiedSwapLearner, SubspatialSimpleMargin, SubspatialVersionSpace, SwapLearner)
    from aideme.active_learning.aluma import aluma_preprocessing
    from aideme.active_learning.factorization import penalty, optimization, step_size_scheduler
    from aideme.active_learning.factorization.linear import LinearFactorizationLearner
    from aideme.active_learning.factorization.learn import prune_irrelevant_subspaces
    from aideme.active_learning.factorization.partitioning.learn import BruteForceSelector, GreedySelector
    from aideme.active_learning.kernel import GaussianKernel, IncrementedDiagonalKernel, Kernel, LinearKernel, PolynomialKernel
    from aideme.active_learning.dsm.polytope import FlippedPolytope, PersistentPolytope, Polytope
    from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
    from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
    from aideme.active_learning.version_space.subspace import Cloneable, SubspaceLearner
    from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm, SphericalGradientDescent
    from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset, PoolBasedExploration
    from aideme.explore.command_line_explore import CommandLineExploration
    from aideme.utils import convergence, metric_logger, metrics, noise

    X = np.array([[0., 1.], [1., 0.], [2., 2.], [3., 1.]])
    y = np.array([0, 1, 1, 0])
    labels = LabeledSet(y)

    def fitted():
        learner = LinearFactorizationLearner(optimizer=optimization.Adam(max_iter=1))
        learner.fit(X, y, 2, x0=np.array([[1., 2., 0.5], [1., -1., 1.]]))
        return learner

    def swap(**kw):
        return SwapLearner(SimpleMargin(), LinearFactorizationLearner(optimizer=optimization.Adam()), **kw)

    def fit(**kw):
        return LinearFactorizationLearner(optimizer=optimization.Adam(max_iter=1)).fit(X, y, **dict({'factorization': 2}, **kw))

    def get_kernel(**kw):
        return Kernel.get(kw.pop('kernel', 'rbf'), **kw)

    exploration = {'subsampling': 'posint_none', 'callback_skip': 'posint', 'callback': CALLBACKS, 'convergence_criteria': CALLBACKS}
    steps = {'batch_size': 'posint_none', 'gtol': 'nonneg', 'rel_tol': 'nonneg', 'max_iter': 'posint_none', 'step_size': 'pos_none'}
    chain = {'warmup': 'posint', 'thin': 'posint'}
    rounding = {'max_iter': 'posint_none', 'strategy': one_of(['opt', 'default', 'OPT'], ['', 'lovasz', None])}
    mode = one_of(['persist', 'positive', 'negative', 'categorical', 'multiset'], ['', 'convex', None, 'positiv'])
    number = one_of(KINDS['pos'][0], [v for v in KINDS['pos'][1] if v is not None])  # None: line search

    return [
        ('stratified_sampler', lambda **kw: initial_sampling.stratified_sampler(labels, **kw), {'pos': 'posint', 'neg': 'posint'}),
        ('random_sampler', lambda **kw: initial_sampling.random_sampler(**dict({'sample_size': 1}, **kw)), {'sample_size': 'posint'}),
        ('PoolBasedExploration', PoolBasedExploration, exploration),
        ('CommandLineExploration', CommandLineExploration, exploration),
        ('ExplorationManager', lambda **kw: ExplorationManager(PartitionedDataset(X), SimpleMargin(), **kw), exploration),
        ('run', lambda **kw: PoolBasedExploration().run(X, labels, SimpleMargin(), **kw),
         {'repeat+seeds': one_of([(1, None), (3, None), (1, 0), (1, 5), (1, [4]), (2, [4, 4]), (2, [0, None]), (2, (1, 2))],
                                 [(2, 5), (1, [1, 2]), (2, [1]), (3, [1, 2]), (2, [1, 2, 3]), (1, [])])}),
        ('LabeledSet', lambda **kw: LabeledSet(**dict({'labels': [0, 1, 1]}, **kw)),
         {'partial': one_of([None, [[0], [1], [1]], [[0, 1], [1, 1], [1, 1]]], [[0, 1, 1], [[0, 1, 1]], [[0], [1]], [[[0]], [[1]], [[1]]], [[0, 1]] * 4]),
          'index': one_of([None, [4, 2, 9], np.array([[1], [2], [3]])], [[], [1], [1, 2], [1, 2, 3, 4]])}),
        ('random_noise_injector', lambda **kw: noise.random_noise_injector(**dict({'noise': 0.5}, **kw)), {'noise': 'range', 'skip_initial': 'nonnegint'}),
        ('max_iter_reached', lambda **kw: convergence.max_iter_reached(**dict({'max_iters': 1}, **kw)), {'max_iters': 'nonnegint_inf'}),
        ('classification_metrics', lambda **kw: metrics.classification_metrics(X, y, **dict({'score_functions': []}, **kw)),
         {'score_functions': one_of([[], ['accuracy'], ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'precision', 'recall', 'fscore']],
                                    [['auc'], ['accuracy', 'f1'], ['Accuracy'], ['']])}),
        ('training_classification_metrics', lambda **kw: metrics.training_classification_metrics(**dict({'score_functions': []}, **kw)),
         {'score_functions': one_of([[], ['fscore', 'fscore']], [['fscores'], ['precision', None], ['PRECISION']])}),
        ('log_metric', lambda **kw: (metric_logger.flush(), metric_logger.log_metric('key', 1, **kw), metric_logger.log_metric('key', 2, **dict({'on_duplicates': 'sum'}, **kw))
                                     if kw.get('on_duplicates', '').upper() != 'APPEND' else None),
         {'on_duplicates': one_of(['overwrite', 'sum', 'append', 'SUM', 'Append'], ['', 'mean', 'sums'])}),
        ('SwapLearner', swap, {'swap_iter': 'posint', 'num_subspaces': 'posint', 'retries': 'posint', 'train_sample_size': 'posint_none', 'prune_threshold': 'range'}),
        ('SimplifiedSwapLearner', SimplifiedSwapLearner, {'swap_iter': 'posint', 'num_subspaces': 'posint', 'retries': 'posint', 'prune_threshold': 'range',
                                                          'l1_penalty': 'pos', 'l2_sqrt_penalty': 'pos'}),
        ('FLMUncertaintySampler', FLMUncertaintySampler, {'penalty': 'nonneg', 'step_size': 'pos_none', 'max_iter': 'posint_none'}),
        ('prune_irrelevant_subspaces', lambda **kw: prune_irrelevant_subspaces(X, fitted(), **kw), {'threshold': 'range', 'tol': 'pos'}),
        ('LinearFactorizationLearner.fit', fit, {'factorization': one_of([1, 3, [[0], [1]], [[0, 1]]], [0, -1, 2.5, None]), 'retries': 'posint'}),
        ('L1Penalty', lambda **kw: penalty.L1Penalty(**dict({'penalty': 1}, **kw)), {'penalty': 'pos'}),
        ('L2Penalty', lambda **kw: penalty.L2Penalty(**dict({'penalty': 1}, **kw)), {'penalty': 'pos'}),
        ('L2SqrtPenalty', lambda **kw: penalty.L2SqrtPenalty(**dict({'penalty': 1}, **kw)), {'penalty': 'pos'}),
        ('InteractionPenalty', lambda **kw: penalty.InteractionPenalty(**dict({'penalty': 1}, **kw)), {'penalty': 'pos'}),
        ('SparseGroupLassoPenalty', lambda **kw: penalty.SparseGroupLassoPenalty(**dict({'l1_penalty': 1, 'l2_sqrt_penalty': 1}, **kw)),
         {'l1_penalty': 'pos', 'l2_sqrt_penalty': 'pos'}),
        ('HuberPenalty', lambda **kw: penalty.HuberPenalty(**dict({'penalty': 1}, **kw)), {'penalty': 'pos', 'delta': 'pos'}),
        ('penalty setter', lambda **kw: setattr(penalty.L2SqrtPenalty(1, [[0]]), 'penalty', kw.get('penalty', 2)), {'penalty': 'pos'}),
        ('BFGS', optimization.BFGS, {k: v for k, v in steps.items() if k not in ('batch_size', 'step_size')}),
        ('GradientDescent', optimization.GradientDescent, dict(steps, momentum='range')),
        ('NoisyGradientDescent', optimization.NoisyGradientDescent, steps),
        ('ProximalGradientDescent', optimization.ProximalGradientDescent, steps),
        ('FISTA', optimization.FISTA, steps),
        ('Adam', optimization.Adam, dict(steps, beta1='range', beta2='range', epsilon='pos')),
        ('Adam power', lambda **kw: optimization.Adam(adapt_step_size=True, **kw), {'step_size': number, 'power': 'pos', 'adapt_every': 'posint'}),
        ('Adam exp', lambda **kw: optimization.Adam(adapt_step_size=True, exp_decay=0.5, **kw), {'step_size': number, 'adapt_every': 'posint'}),
        ('FixedScheduler', lambda **kw: step_size_scheduler.FixedScheduler(**dict({'step_size': 1}, **kw)), {'step_size': 'pos'}),
        ('PowerDecayScheduler', lambda **kw: step_size_scheduler.PowerDecayScheduler(**dict({'step_size': 1, 'power': 1}, **kw)),
         {'step_size': 'pos', 'power': 'pos', 'adapt_every': 'posint'}),
        ('ExponentialDecayScheduler', lambda **kw: step_size_scheduler.ExponentialDecayScheduler(**dict({'step_size': 1, 'decay': 1}, **kw)),
         {'step_size': 'pos', 'decay': 'pos', 'adapt_every': 'posint'}),
        ('BruteForceSelector', BruteForceSelector, {'max_partitions': 'posint_none', 'max_dim': 'posint_none'}),
        ('GreedySelector', GreedySelector, {'max_partitions': 'posint_none', 'max_dim': 'posint_none'}),
        ('LinearVersionSpace', LinearVersionSpace, chain),
        ('KernelVersionSpace', KernelVersionSpace, dict(chain, kernel=KERNELS)),
        ('EntropyReductionLearner', EntropyReductionLearner, dict(chain, data_sample_size='posint_none', jitter='pos', kernel=KERNELS)),
        ('SubspatialVersionSpace', lambda **kw: SubspatialVersionSpace(partition=[[0], [1, 2]], **kw),
         dict(chain, mode=one_of(['numerical', 'categorical', 'multiset', 'persist', ['numerical', 'multiset'], ['Negative', 'categorical']],
                                 ['', 'text', ['numerical'], ['numerical'] * 3, ['numerical', 'text']]),
              loss=one_of(['GREEDY', 'product', f], ['', 'sum', 3]), label_function=one_of(['AND', 'or', 'PROD', f], ['', 'XOR', 3]))),
        ('SubspatialVersionSpace kernel', lambda **kw: SubspatialVersionSpace(kernel='poly', **kw), {'gamma': 'pos_none', 'degree': 'posint', 'jitter': 'pos', 'warmup': 'posint'}),
        ('KernelVersionSpace rbf', KernelVersionSpace, {'gamma': 'pos_none', 'jitter': 'pos', 'rounding_options': one_of([None, {}, {'strategy': 'default'}], [{'strategy': 'x'}, {'max_iter': 0}])}),
        ('EntropyReductionLearner poly', lambda **kw: EntropyReductionLearner(kernel='poly', **kw), {'gamma': 'pos_none', 'degree': 'posint', 'data_sample_size': 'posint_none'}),
        ('SubspatialSimpleMargin', lambda **kw: SubspatialSimpleMargin(partition=[[0], [1, 2]], **kw), {'label_function': one_of(['AND', 'or', f], ['', 'XOR', 3])}),
        ('SubspaceLearner', lambda **kw: SubspaceLearner(Cloneable(SimpleMargin), **kw),
         {'label_function': one_of(['AND', 'or', None, f], ['', 'PROD', 3]), 'probability_function': one_of(['MIN', 'max', 'Prod', None, f], ['', 'SUM', 3]),
          'ranking_function': one_of(['sum', 'SQUARE', f], ['', 'MIN', 3])}),
        ('DualSpaceModel', lambda **kw: DualSpaceModel(SimpleMargin(), **kw), {'mode': mode}),
        ('FactorizedDualSpaceModel', lambda **kw: FactorizedDualSpaceModel(SimpleMargin(), partition=[[0], [1]], **kw),
         {'mode': one_of(['persist', ['positive', 'categorical'], ['multiset', 'negative']], ['', ['persist'], ['persist'] * 3, ['persist', 'convex']])}),
        ('DualSpaceModel persist', lambda **kw: DualSpaceModel(SimpleMargin(), **kw), {'mode': one_of(['persist', 'positive', 'negative'], ['']), 'tol': 'pos'}),
        ('Polytope', Polytope, {'tol': 'pos'}),
        ('FlippedPolytope', FlippedPolytope, {'tol': 'pos'}),
        ('PersistentPolytope', PersistentPolytope, {'tol': 'pos'}),
        ('Ellipsoid', lambda **kw: Ellipsoid(**dict({'dim': 2}, **kw)), {'dim': one_of([2, 3], KINDS['posint'][1])}),
        ('RoundingAlgorithm', RoundingAlgorithm, rounding),
        ('LinearVersionSpace.rounding_options', lambda **kw: LinearVersionSpace(rounding_options=kw), rounding),
        ('SphericalGradientDescent', SphericalGradientDescent, {'retraction': one_of(['sphere', 'project', 'Sphere'], ['', 'cone']), 'grad_norm_threshold': 'pos',
                                                                'rel_tol': 'pos', 'max_iter': 'posint_none', 'step_size': 'pos_none'}),
        ('BayesianLinearVersionSpace', BayesianLinearVersionSpace, {'sampler': one_of(['laplace'], ['', 'mcmc', 'kernel-laplace']),
                                                                    'prior': one_of(['improper', 'gaussian'], ['', 'cauchy', 'laplace']), 'prior_std': 'pos',
                                                                    'tol': 'pos'}),
        ('BayesianKernelVersionSpace', BayesianKernelVersionSpace, {'sampler': one_of(['laplace', 'kernel-laplace'], ['', 'mcmc']), 'prior_std': 'pos', 'tol': 'pos',
                                                                    'kernel': KERNELS}),
        ('BayesianLinearVersionSpace stan', lambda **kw: BayesianLinearVersionSpace(sampler='stan', **kw), dict(
            chain, prior=one_of(['improper', 'gaussian', 'cauchy'], ['', 'laplace']), prior_std='pos')),
        ('aluma_preprocessing', lambda **kw: aluma_preprocessing(X, None, **dict({'margin': 1, 'H': 1, 'delta': 0.5}, **kw)),
         {'margin': one_of([0.5, 1], KINDS['pos'][1]), 'H': 'nonneg', 'delta': one_of([0.5, 1, 1.], [-1e-9, 1.0000001, -1, None, '0.5', NAN])}),
        ('QueryByDisagreement', lambda **kw: QueryByDisagreement(LogisticRegression(), **kw), {'background_sample_size': 'posint', 'background_sample_weight': 'pos'}),
        ('RandomSampler', lambda **kw: RandomSampler(LogisticRegression(), **kw), {'batch_size': 'posint'}),
        ('Kernel.get', get_kernel, {'kernel': KERNELS}),
        ('Kernel.get rbf', lambda **kw: Kernel.get('rbf', **kw), {'gamma': 'pos_none'}),
        ('Kernel.get poly', lambda **kw: Kernel.get('poly', **kw), {'gamma': 'pos_none', 'degree': 'posint'}),
        ('GaussianKernel', GaussianKernel, {'gamma': 'pos_none'}),
        ('PolynomialKernel', PolynomialKernel, {'gamma': 'pos_none', 'degree': 'posint'}),
        ('IncrementedDiagonalKernel', lambda **kw: IncrementedDiagonalKernel(LinearKernel(), **dict({'jitter': 1e-6}, **kw)), {'jitter': 'pos'}),
    ]


def values(kind):
    good, bad = KINDS[kind] if isinstance(kind, str) else kind
    return [(v, True) for v in good] + [(v, False) for v in bad]


class StanModel:
    def __init__(self, **kwargs):
        self.model_code = kwargs.get('model_code')


def configs(tier):
    return [{'part': k, 'parts': 16, 'together': 2 if tier == 'quick' else 3} for k in range(16)]


def run(cfg, stats):
    stub = types.ModuleType('pystan')
    stub.StanModel = StanModel
    sys.modules['pystan'] = stub
    scratch, before = tempfile.mkdtemp(prefix='p43-'), os.getcwd()
    os.chdir(scratch)
    try:
        for number, (name, function, kinds) in enumerate(table()):
            if number % cfg['parts'] == cfg['part']:
                decide(cfg, stats, name, function, kinds)
    finally:
        os.chdir(before)
        shutil.rmtree(scratch)


def decide(cfg, stats, name, function, kinds):
    for size in range(cfg['together'] + 1):
        for settings in itertools.combinations(sorted(kinds), size):
            for chosen in itertools.product(*[values(kinds[s]) for s in settings]):
                kwargs = {}
                for s, (v, _) in zip(settings, chosen):
                    if '+' in s:
                        kwargs.update(zip(s.split('+'), v))
                    else:
                        kwargs[s] = v
                valid = all(ok for _, ok in chosen)
                stats.executions += 1
                stats.state(name, settings, repr(chosen))
                stats.step()
                try:
                    function(**kwargs)
                    error = None
                except Exception as e:
                    error = e
                stats.outcome('accepted' if error is None else 'rejected')
                if valid and error is not None:
                    stats.violation('rejected', '{} rejects the valid settings {}: {!r}'.format(name, kwargs, error), {'name': name, 'settings': repr(kwargs)})
                elif not valid and error is None:
                    bad = {s: v for s, (v, ok) in zip(settings, chosen) if not ok}
                    stats.violation('accepted', '{} accepts {}, with invalid {}'.format(name, kwargs, bad), {'name': name, 'settings': repr(kwargs)})
    stats.sample({'name': name, 'settings': repr(sorted(kinds))})
