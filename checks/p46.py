import itertools
import sys
import types
import warnings

import numpy as np

from aideme.active_learning import (KernelVersionSpace, LinearVersionSpace, SimpleMargin, SubspatialSimpleMargin, SubspatialVersionSpace)
from aideme.active_learning.entropy import EntropyReductionLearner
from aideme.active_learning.factorization.active_learning import SimplifiedSwapLearner, SwapLearner
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import FISTA, Adam
from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.kernel import KernelBayesianLogisticRegression
from aideme.active_learning.version_space.linear import DeterministicLogisticRegression
from aideme import LabeledSet, PartitionedDataset
from sklearn.svm import SVC
from aideme.utils import metric_logger
from mc.choice import controlled

PROPERTY = 'P46'
RULE = 'for every assembled learner: all combinations of options in which at most 2 (thorough: 3) differ from a base setting, over data sets of a menu and ' \
       'histories of two trainings; the learner and the parts built with these options are driven by the same outcomes of random draws, of a menu of sequences, and ' \
       'labels, probabilities and ranks over a grid must agree after every training; the simplified swap learner is compared with a swap learner ' \
       'assembled by hand in complete sessions'
ASSUMPTIONS = ['all random draws go through numpy.random', 'learner and parts draw in the same order', 'the parts themselves are decided by P23, P26, P28, P33, P39, P45']


class Cycle:
    """ outcomes of draws: a fixed sequence """
    def __init__(self, start):
        self.k = start

    def pick(self, menu):
        self.k += 1
        return menu[self.k % len(menu)]

    def choose(self, n):
        self.k += 1
        return 7 * self.k % n


def directions(n):
    i = np.arange(n) + 1.
    return [np.cos(1.7 * i * (j + 1.3) + j) for j in range(3)]


def playing(start):
    return controlled(Cycle(start), directions=directions, fractions=(0.2, 0.5, 0.9, 0.35, 0.7), max_perm=0)


SAMPLER = {
    'single_chain': [True, False], 'n_samples': [5, 3], 'warmup': [2, 5], 'thin': [1, 3], 'cache_samples': [True, False], 'rounding': [True, False],
    'rounding_cache': [True, False], 'rounding_options': [None, {'strategy': 'default'}, {'max_iter': 1}, {'z_cut': False}], 'add_intercept': [True, False],
}
KERNEL = {'decompose': [True, False], 'kernel': ['rbf', 'poly', 'linear'], 'gamma': [None, 0.1], 'degree': [3, 2], 'coef0': [0., 1.], 'jitter': [1e-12, 0.5]}
BAYES = {'prior': ['improper', 'gaussian'], 'prior_std': [1., 3.], 'add_intercept': [True, False], 'tol': [1e-6, 0.3], 'max_iter': [10000, 2], 'sampler': ['laplace', 'kernel-laplace'],
         'kernel': ['rbf', 'poly', 'linear'], 'gamma': [None, 0.1], 'degree': [3, 2], 'coef0': [0., 1.], 'jitter': [1e-12, 0.5]}
MARGIN = {'C': [1., 100.], 'kernel': ['rbf', 'linear', 'poly'], 'gamma': ['auto', 0.05, 'scale']}
SWAP = {
    'swap_iter': [1, 2], 'l1_penalty': [1e-4, 0.05], 'l2_sqrt_penalty': [1e-4, 0.05], 'train_sample_size': [4, 7, 501], 'num_subspaces': [2, 3], 'retries': [1, 2],
    'prune': [True, False], 'prune_threshold': [0.99, 0.3, 0.05, 0.005], 'adapt_max_iter': [False, True], 'refine_min_iter': [10, 3], 'refine_max_iter': [30, 12], 'refine_every': [5, 1],
    'refine_increment': [10, 2], 'refine_step_size': [None, 0.7], 'refine_exp': [False, True], 'use_vs': [False, True], 'use_exp_decay': [True, False],
    'use_fista': [False, True], 'cars': [False, True], 'one_hot_groups': [None, [[0, 1]]], 'full_fact': [False, True], 'use_fact_vs': [False, True], 'fact_C': [1e3, 0.5],
    'fact_penalty': [5e-4, 0.05, 3.], 'fact_max_iter': [40, 3], 'fact_step_size': [5., 0.1],
}
TOGETHER = [{'adapt_max_iter': True, 'refine_exp': True}, {'adapt_max_iter': True}, {'full_fact': True}, {'full_fact': True, 'use_fact_vs': True}, {'use_fista': True, 'cars': True},
            {'use_fista': True}, {'cars': True}]
DATA = [
    ([[0., 1.], [2., -1.], [1.5, 0.3]], [1., 0., 1.]),
    ([[1., 1.], [-1., 0.5], [0.2, -2.]], [0., 1., 0.]),
    ([[3., 0.5], [1., 2.], [-1., 2.5]], [1., 1., 0.]),
]
GRID = np.array(list(itertools.product(np.linspace(-2, 3.5, 8), repeat=2)))


def combinations(menu, deviations, must=()):
    names = list(menu)
    for k in range(deviations + 1):
        for changed in itertools.combinations(names, k):
            for values in itertools.product(*(menu[n][1:] for n in changed)):
                yield dict({n: menu[n][0] for n in names}, **dict(zip(changed, values)))


def configs(tier):
    big = tier == 'thorough'
    res = []
    for kind, parts in (('linear', 4), ('kernel', 16), ('entropy', 8), ('subspatial', 8), ('margin', 1), ('svc', 1), ('bayes-linear', 1), ('bayes-kernel', 2)):
        for k in range(parts):
            res.append({'kind': kind, 'deviations': 3 if big else 2, 'part': [k, parts], 'big': big})
    for k in range(len(TOGETHER) + 1):
        for j in range(4):
            res.append({'kind': 'swap', 'together': k, 'deviations': 2 if big else 1, 'part': [j, 4], 'big': big})
    res.append({'kind': 'defaults'})
    return res


def run(cfg, stats):
    if 'pystan' not in sys.modules:  # imported by the module of the Laplace approximation, but not used by it
        sys.modules['pystan'] = types.ModuleType('pystan')
        sys.modules['pystan'].StanModel = object
    if cfg['kind'] == 'swap':
        return run_swap(cfg, stats)
    if cfg['kind'] == 'defaults':
        return run_defaults(stats)
    menu = MARGIN if cfg['kind'] in ('margin', 'svc') else BAYES if cfg['kind'] == 'bayes-kernel' else {k: BAYES[k] for k in list(BAYES)[:5]} \
        if cfg['kind'] == 'bayes-linear' else SAMPLER if cfg['kind'] == 'linear' else dict(SAMPLER, **KERNEL)
    for k, options in enumerate(combinations(menu, cfg['deviations'])):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        for d, (X, y) in enumerate(DATA):
            if not cfg['big'] and len(menu) > len(SAMPLER) and d != k // cfg['part'][1] % 3:
                continue
            for start in (0, 4) if cfg['big'] or len(menu) <= len(SAMPLER) else (d,):
                compare(cfg['kind'], options, np.array(X), np.array(y), start, stats)
    stats.outcome(cfg['kind'])


def parts_of(kind, options):
    """ functions fit, proba (votes are compared, as they are finer than labels) """
    o = dict(options)
    if kind == 'linear':
        n, intercept = o.pop('n_samples'), o.pop('add_intercept')
        return Sampled(HitAndRunSampler(**o), n, intercept)
    if kind == 'kernel':
        k = {name: o.pop(name) for name in KERNEL}
        if not o['rounding']:
            o['rounding_cache'] = False
        if o['rounding_cache']:
            k['decompose'] = True
        return KernelBayesianLogisticRegression(DeterministicLogisticRegression(**o), **k)
    if kind in ('entropy', 'subspatial'):
        return KernelVersionSpace(**o)
    if kind == 'bayes-linear':
        return laplace().LaplaceBayesianLogisticRegression(**o)
    if kind == 'bayes-kernel':
        k = {name: o.pop(name) for name in KERNEL if name in o}
        if o.pop('sampler') == 'laplace':
            l = laplace().LaplaceBayesianLogisticRegression(**o)
        else:
            l = laplace().KernelLaplaceBayesianLogisticRegression(prior_std=o['prior_std'], tol=o['tol'], max_iter=o['max_iter'])
        return KernelBayesianLogisticRegression(l, decompose=False, **k)
    if kind == 'margin':
        return SimpleMargin(**o)
    return SVC(**o)


def learner_of(kind, options):
    if kind == 'subspatial':
        return SubspatialVersionSpace(partition=[[0, 1]], **options)
    if kind.startswith('bayes'):
        from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
        return (BayesianLinearVersionSpace if kind == 'bayes-linear' else BayesianKernelVersionSpace)(**options)
    if kind == 'margin':
        return SubspatialSimpleMargin(partition=[[0, 1]], **options)
    return {'linear': LinearVersionSpace, 'kernel': KernelVersionSpace, 'entropy': EntropyReductionLearner, 'svc': SimpleMargin}[kind](**options)


def laplace():
    from aideme.active_learning.version_space.bayesian import laplace as module
    return module


class Sampled:
    """ linear classifiers of a sampler """
    def __init__(self, sampler, n, intercept):
        self.sampler, self.n, self.intercept = sampler, n, intercept

    def features(self, X):
        return np.c_[np.ones(len(X)), X] if self.intercept else X

    def fit(self, X, y):
        self.W = self.sampler.sample(self.features(X), y, self.n)

    def predict_proba(self, X):
        return (self.features(X) @ self.W.T > 0).mean(axis=1)


def outcome(f):
    try:
        return f()
    except (RuntimeError, ValueError, TypeError) as e:  # no separator, one class, no probabilities
        return 'error: ' + str(e)[:40]


def compare(kind, options, X, y, start, stats):
    case = {'learner': kind, 'options': options, 'data': X.tolist(), 'labels': y.tolist(), 'draws': start}
    stats.current = case
    warnings.simplefilter('ignore')  # optimizers stopped early
    a, b = learner_of(kind, options), parts_of(kind, options)
    stats.executions += 1
    for size in (2, 3):

        def train(l):
            with playing(start):
                l.fit(X[:size].copy(), (y[:size].reshape(-1, 1) if l is a and kind in ('subspatial', 'margin') else y[:size]).copy())
            if kind == 'svc' and l is b:
                m = l.decision_function(GRID)
                return 1 / (1 + np.exp(-m)), (m > 0).astype(float), np.abs(m)
            p = l.predict_proba(GRID) if kind != 'margin' or l is b else a.predict_proba_all(GRID)[0]
            if kind == 'margin':
                return p, l.predict(GRID), l.rank(GRID)
            if l is b:
                return p, (p > 0.5).astype(float), 1 - 2 * p * (1 - p) if kind == 'subspatial' else np.abs(p - 0.5)
            return p, l.predict(GRID), np.abs(p - 0.5) if kind == 'entropy' else l.rank(GRID)

        got, want = outcome(lambda: train(a)), outcome(lambda: train(b))
        stats.step(2)
        stats.state(case, size)
        if isinstance(want, str) or isinstance(got, str):
            if isinstance(want, str) != isinstance(got, str):
                stats.violation('error', 'learner gives {}, its parts {}: {}'.format(got, want, case), case)
            stats.outcome('not separable')
            return
        for name, g, w in zip(('probabilities', 'labels', 'ranks'), got, want):
            bad = np.abs(np.asarray(g) - w) > 1e-9
            if name == 'labels' and kind == 'svc':
                bad = bad & (want[2] > 1e-9)
            if np.any(bad):
                return stats.violation(name, '{} of the learner differ from those of its parts at {}: {} instead of {}: {}'.format(
                    name, GRID[bad][0].tolist(), np.asarray(g)[bad][0], w[bad][0], case), case)
    stats.sample(case)


def run_defaults(stats):
    """ options left out have the same values in all kernel version spaces """
    for X, y in DATA:
        X, y = np.array(X), np.array(y)
        res = []
        for l in (KernelVersionSpace(), SubspatialVersionSpace(), EntropyReductionLearner()):
            out = []
            for size in (2, 3):
                with playing(0):
                    l.fit(X[:size].copy(), (y[:size].reshape(-1, 1) if isinstance(l, SubspatialVersionSpace) else y[:size]).copy())
                out.append(l.predict_proba(GRID).tolist())
            res.append(out)
            stats.executions += 1
            stats.step(2)
            stats.state(type(l).__name__, out)
        stats.check(res[0] == res[1] == res[2], 'defaults', 'kernel version spaces differ without options', {'data': X.tolist()})
    stats.outcome('defaults')
    stats.sample({'data': X.tolist()})


def by_hand(o):
    """ the swap learner which the options of the simplified one describe """
    S = SimplifiedSwapLearner

    def adam(step_size, max_iter, batch_size=None, adapt_step_size=False, adapt_every=1, exp_decay=0, fista=False):
        epoch = -(-o['train_sample_size'] // batch_size) if batch_size else 1  # iterations per pass over the data
        return (FISTA if fista else Adam)(step_size=step_size, max_iter=max_iter * epoch, exp_decay=exp_decay, batch_size=batch_size, adapt_step_size=adapt_step_size,
                                          adapt_every=adapt_every * epoch, gtol=0, rel_tol=0)
    swap = LinearFactorizationLearner(adam(**(S.SWAP_CARS if o['cars'] else S.SWAP_EXP_DECAY if o['use_exp_decay'] else S.SWAP_DEFAULT_PARAMS)))
    p = dict({(True, True): S.FISTA_CARS, (True, False): S.FISTA_DEFAULT_PARAMS, (False, True): S.REFINE_CARS, (False, False): S.REFINE_DEFAULT_PARAMS}[o['use_fista'], o['cars']])
    if o['refine_step_size']:
        p['step_size'] = o['refine_step_size']
    penalty = SparseGroupLassoPenalty(l1_penalty=o['l1_penalty'], l2_sqrt_penalty=o['l2_sqrt_penalty'], groups=o['one_hot_groups'])
    refine = LinearFactorizationLearner(adam(max_iter=o['refine_max_iter'], fista=o['use_fista'], **p), penalty_term=penalty)
    adapter = None
    if o['adapt_max_iter']:
        def adapter(it):
            periods = it // o['refine_every']
            return min(o['refine_max_iter'], o['refine_min_iter'] * 2. ** periods if o['refine_exp'] else o['refine_min_iter'] + o['refine_increment'] * periods)
    fact = None
    if o['full_fact']:
        fact = SubspatialVersionSpace(**S.FACT_VS_PARAMS) if o['use_fact_vs'] else SubspatialSimpleMargin(C=o['fact_C'])
    return SwapLearner(
        KernelVersionSpace(**S.VS_DEFAULT_PARAMS) if o['use_vs'] else SimpleMargin(C=1e6), swap, refine, num_subspaces=o['num_subspaces'], retries=o['retries'],
        max_iter_adapter=adapter, swap_iter=o['swap_iter'], train_sample_size=o['train_sample_size'], prune=o['prune'], prune_threshold=o['prune_threshold'], fact_model=fact,
        compute_fact_every=5, fact_repeat=2, fact_max_iter=o['fact_max_iter'], fact_step_size=o['fact_step_size'],
        fact_l1_penalty=o['fact_penalty'], fact_l2_sqrt_penalty=o['fact_penalty'])


POINTS = np.array(list(itertools.product((-1.5, 0., 1.), (-1., 0.5, 2.))))
ANSWERS = ((POINTS[:, 0] > -1) & (POINTS[:, 1] > 0)).astype(float)
ORDER = [0, 8, 4, 1, 7, 3, 5, 2, 6]


def run_swap(cfg, stats):
    base = {n: v[0] for n, v in SWAP.items()}
    together = {} if cfg['together'] == len(TOGETHER) else TOGETHER[cfg['together']]
    menu = {n: v for n, v in SWAP.items() if n not in together}
    for k, options in enumerate(combinations(menu, cfg['deviations'])):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        options = dict(base, **dict(options, **together))
        if cfg['big'] and k % 3:  # a third of the pairs
            continue
        session(options, stats)
    stats.outcome('swap')


def session(options, stats):
    case = {'options': options}
    stats.current = case
    stats.executions += 1
    logs = []
    length = options['swap_iter'] + (13 if options['full_fact'] else 7 if options['adapt_max_iter'] else 3)
    for make in (lambda: SimplifiedSwapLearner(**options), lambda: by_hand(options)):
        with playing(1):
            l = make()
            l.set_user_factorization([[0], [1]])
            data = PartitionedDataset(POINTS.copy())
            log, given = [], 0
            metric_logger.flush()
            for t in range(length):
                if given < len(ORDER):
                    idx = ORDER[given: given + (1 if options['use_vs'] and given else 2)]  # the kept ellipsoid supports one more point per fit only
                    given += len(idx)
                    partial = np.c_[POINTS[idx, 0] > -1, POINTS[idx, 1] > 0].astype(float)
                    data.move_to_labeled(LabeledSet(ANSWERS[idx], partial, idx))
                l.fit_data(data)
                w = l.linear_model
                log.append([np.asarray(outcome(lambda: f(GRID))).tolist() for f in (l.predict, l.predict_proba, l.rank)] + [None if w is None else w.weight_matrix.tolist()])
                log[-1].append(str(metric_logger.get_metrics().get('factorization')))  # the last one computed
                stats.step()
        logs.append(log)
    for t, (a, b) in enumerate(zip(*logs)):
        if a != b:
            return stats.violation('swap', 'simplified swap learner differs from the one assembled by hand in iteration {}: {}'.format(t + 1, case), case)
    stats.state(case, logs[0][-1][1])
    stats.sample(case)
