import itertools
import math

import numpy as np

from aideme.active_learning import KernelVersionSpace
from aideme.active_learning.version_space.kernel import KernelBayesianLogisticRegression
from mc.choice import controlled, explore
from checks.p23 import generic

PROPERTY = 'P26'
RULE = 'every sequence of training points of a grid up to the size of the shard (repeated points included), for every kernel of the menu: ' \
       'inner products of the features given to the linear model are compared with the kernel computed point by point; and every labeling ' \
       'of every training set, delivered at once or point by point, for every sampler setting and all outcomes of the directions and steps ' \
       'of a menu: predictions of training points must be their labels'
ASSUMPTIONS = ['points have small coordinates', 'cached rounding needs training sets which grow by one point',
               'directions come from a menu of 2, steps from 2 fractions of the chord', 'all random draws go through numpy.random']

POINTS = {1: [(0.,), (1.,), (3.,), (1.5,)], 2: [(0., 0.), (1., 0.), (0., 2.), (1., 1.), (-1., 1.)]}
KERNELS = [
    {'kernel': 'rbf'}, {'kernel': 'rbf', 'gamma': 0.3}, {'kernel': 'linear'}, {'kernel': 'poly', 'degree': 2, 'coef0': 1.},
    {'kernel': 'poly', 'degree': 3, 'gamma': 0.5, 'coef0': 0.}, {'kernel': 'gaussian', 'gamma': 2.},
]
SETTINGS = [
    {'single_chain': True, 'rounding': True, 'rounding_cache': True},
    {'single_chain': True, 'rounding': True, 'rounding_cache': False},
    {'single_chain': True, 'rounding': False, 'decompose': True},
    {'single_chain': False, 'rounding': False, 'decompose': False},
    {'single_chain': False, 'rounding': True, 'rounding_cache': True, 'cache_samples': False, 'rounding_options': {'strategy': 'default'}},
    {'single_chain': True, 'rounding': True, 'rounding_cache': True, 'add_intercept': False},
    {'single_chain': True, 'rounding': True, 'rounding_cache': False, 'decompose': False, 'add_intercept': False},
]


def value(spec, x, y):
    dot = sum(a * b for a, b in zip(x, y))
    gamma = spec.get('gamma') or 1. / len(x)
    if spec['kernel'] == 'linear':
        return dot
    if spec['kernel'] == 'poly':
        return (gamma * dot + spec['coef0']) ** spec['degree']
    return math.exp(-gamma * sum((a - b) ** 2 for a, b in zip(x, y)))


def configs(tier):
    big = tier == 'thorough'
    res = []
    for k in range(len(KERNELS)):
        for dim in (1, 2):
            res += [{'mode': 'features', 'kernel': k, 'dim': dim, 'size': s} for s in ((1, 2, 3) if not big else (1, 2, 3, 4))]
    for k in (0, 1, 3, 5):
        for s in range(len(SETTINGS)):
            for dim in (1, 2):
                if big or s in (0, 2) or (k + s + dim) % 3 == 0:
                    res += [{'mode': 'learner', 'kernel': k, 'setting': s, 'dim': dim, 'size': 3 if not big else 4, 'part': [i, 4], 'big': big} for i in range(4)]
            for dim in (1, 2):
                for size in (1, 2):
                    res.append({'mode': 'learner', 'kernel': k, 'setting': s, 'dim': dim, 'size': size, 'part': [0, 1], 'big': big or size == 1})
    return res


class Recorder:
    """ linear model which remembers its features """
    def __init__(self):
        self.cleared = 0

    def clear(self):
        self.cleared += 1

    def fit(self, X, y):
        self.F, self.y = np.array(X), np.array(y)

    def predict(self, X):
        self.Z = np.array(X)
        return X[:, 0]

    def predict_proba(self, X):
        self.Z = np.array(X)
        return X[:, -1]

    _likelihood = predict


def run(cfg, stats):
    globals()['run_' + cfg['mode']](cfg, stats)


def run_features(cfg, stats):
    spec, pts = KERNELS[cfg['kernel']], POINTS[cfg['dim']]
    queries = pts + [tuple(2.5 - 0.5 * v for v in p) for p in pts]
    for chosen in itertools.product(range(len(pts)), repeat=cfg['size']):
        train = [pts[i] for i in chosen]
        for decompose in (True, False):
            jitter = 1e-9
            case = {'kernel': spec, 'points': train, 'decompose': decompose}
            stats.current = case
            rec = Recorder()
            model = KernelBayesianLogisticRegression(rec, decompose=decompose, jitter=jitter, **spec)
            X, y = np.array(train), np.arange(cfg['size']) % 2
            for attempt in range(2):  # trained again after clearing, and after being trained with other points
                model.fit(X, y)
                stats.executions += 1
                K = np.array([[value(spec, a, b) for b in train] for a in train])
                F = rec.F
                tol = 1e-6
                if X.tolist() != [list(p) for p in train] or rec.y.tolist() != y.tolist():
                    return stats.violation('arguments', 'training data was changed: {}'.format(case), case)
                gram = F @ F.T if decompose else F
                if not np.allclose(gram, K, atol=tol):
                    return stats.violation('train-features', 'inner products of features are {}, kernel is {}: {}'.format(gram, K, case), case)
                for name, Q in (('training points', X), ('copy of training points', X.copy()), ('queries', np.array(queries)), ('one query', np.array(queries[-1:]))):
                    before = Q.tolist()
                    out = model.predict(Q)
                    Z = rec.Z
                    stats.step()
                    KQ = np.array([[value(spec, a, b) for b in train] for a in before])
                    diag = np.array([value(spec, a, a) for a in before])
                    if not np.all(np.isfinite(Z)):
                        return stats.violation('not-finite', 'features of {} are {}: {}'.format(name, Z, case), case)
                    got = Z @ F.T if decompose else Z
                    if not np.allclose(got, KQ, atol=1e-4):
                        return stats.violation('features', 'inner products of features of {} are {}, kernel is {}: {}'.format(name, got, KQ, case), case)
                    if decompose and not np.allclose((Z * Z).sum(axis=1), diag, atol=1e-4):
                        return stats.violation('norms', 'square norms of features of {} are {}, kernel is {}: {}'.format(name, (Z * Z).sum(axis=1), diag, case), case)
                    if Q.tolist() != before or out.tolist() != Z[:, 0].tolist() or model.predict_proba(Q).tolist() != Z[:, -1].tolist():
                        return stats.violation('delegation', 'predictions of {} are not those of the linear model: {}'.format(name, case), case)
                stats.state(case, attempt)
                other = KernelBayesianLogisticRegression(Recorder(), decompose=decompose, jitter=jitter, **spec)
                other.fit(np.array(queries), np.arange(len(queries)) % 2)
                if attempt == 0:
                    model.clear()
                    stats.check(rec.cleared == 1, 'clear', 'clear does not reach the linear model')
                    model.fit(np.array(queries), np.arange(len(queries)) % 2)
            stats.outcome('decompose={}'.format(decompose))
    stats.sample(case)


def run_learner(cfg, stats):
    spec, pts = KERNELS[cfg['kernel']], POINTS[cfg['dim']]
    options = dict(SETTINGS[cfg['setting']], warmup=1, thin=1, n_samples=2 if cfg['big'] or cfg['setting'] in (0, 3) else 1, jitter=1e-12, **spec)
    poly = spec['kernel'] == 'poly'
    queries = np.array([tuple(2.5 - 0.5 * v for v in p) for p in pts])
    n = cfg['size']
    for k, chosen in enumerate(itertools.permutations(range(len(pts)), n)):
        if k % cfg['part'][1] != cfg['part'][0] or (not cfg['big'] and (k // 4) % (3 if cfg['dim'] == 1 else 5)):
            continue
        for labels in itertools.product((0, 1), repeat=n):
            X, y = np.array([pts[i] for i in chosen]), np.array(labels, dtype=float)
            if poly and np.linalg.matrix_rank(np.array([[value(spec, a, b) for b in X] for a in X])) < n:
                continue  # labels may not be separable
            first = max(1, n - 1)
            for stages in ([(n,), tuple(range(first, n + 1))] if n > 1 else [(1,)]):
                case = {'points': X.tolist(), 'labels': labels, 'stages': stages, 'options': options}
                stats.current = case

                def execution(ch):
                    earlier = [ch.pick((0.1, 0.47))] if len(stages) > 1 else []
                    learner = KernelVersionSpace(**options)
                    for m in stages:
                        last = m == stages[-1]
                        with controlled(ch, directions=(lambda d: generic_long(d)) if last else (lambda d: generic_long(d)[:1]),
                                        fractions=(0.1, 0.9) if last else earlier, max_perm=0):
                            learner.fit(X[:m].copy(), y[:m].copy())
                        stats.step()
                        proba = learner.predict_proba(X[:m].copy())
                        if proba.tolist() != y[:m].tolist() or learner.predict(X[:m].copy()).tolist() != y[:m].tolist():
                            return stats.violation('training-labels', 'probabilities of training points are {}, labels {}: {}'.format(proba, y[:m], case), case)
                        if np.abs(learner.rank(X[:m]) - 0.5).max() > 1e-9:
                            return stats.violation('training-rank', 'rank of training points is {}: {}'.format(learner.rank(X[:m]), case), case)
                        p = learner.predict_proba(queries)
                        if not set(p.tolist()) <= {0., 0.5, 1.} or learner.rank(queries).tolist() != np.abs(p - 0.5).tolist() or learner.predict(queries).tolist() != (p > 0.5).tolist():
                            return stats.violation('predictions', 'probabilities {} ranks {} predictions {}: {}'.format(p, learner.rank(queries), learner.predict(queries), case), case)
                        stats.state(case, m, ch.choices)

                explore(execution, stats)
                stats.outcome('{} trainings'.format(len(stages)))
    stats.sample(case)


def generic_long(d):
    base = np.resize([1.0, -0.37, 0.61, 0.23, -0.83, 0.47, 0.71], d) if d <= 7 else np.cos(1.7 * np.arange(d))
    return [base, 2.5 * np.roll(base, 1) * np.where(np.arange(d) % 2, 1., -1.)]
