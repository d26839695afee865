import itertools
import math

import numpy as np
from sklearn.svm import SVC

from aideme import LabeledSet, PartitionedDataset
from aideme.active_learning import RandomSampler, RatioMargin, SimpleMargin, UncertaintySampler

from checks.datasets import INDEXES, make_data
from mc.choice import controlled, explore

PROPERTY = 'P39'
RULE = 'margin learners: every labeling (with both classes) of every sequence of training points of a grid, for every kernel and cost of the menu: labels, ' \
       'probabilities and ranks of all points of a grid, asked together, alone and again after other questions, are compared with the definition over ' \
       'a separately solved dual problem; random and uncertainty samplers: every division of up to 5 points, every menu of ' \
       'probabilities and batch size, all outcomes of the draws'
ASSUMPTIONS = ['at most 4 training points', 'scikit-learn solves the dual problem of a support vector machine (its optimality is verified)',
               'ratio margin: one of the two margins is positive', 'classifiers give one probability per point, or one per point and class']

POINTS = {1: [(0.,), (1.,), (-2.,), (0.5,)], 2: [(0., 0.), (1., 0.), (0., 2.), (-1., 1.)]}
KERNELS = [{'kernel': 'rbf'}, {'kernel': 'rbf', 'gamma': 0.3}, {'kernel': 'linear'}, {'kernel': 'rbf', 'gamma': 'scale'}]


def configs(tier):
    big = tier == 'thorough'
    res = []
    for kind in ('simple', 'ratio'):
        for dim in (1, 2):
            for k in range(len(KERNELS)):
                for C in (1., 1e5, 0.2):
                    for size in (2, 3) + ((4,) if big else ()):
                        if kind == 'simple' or C < 1e5 or k != 2:  # badly conditioned
                            res.append({'mode': 'margin', 'kind': kind, 'dim': dim, 'kernel': k, 'C': C, 'size': size, 'big': big})
    for n in (2, 3, 4) + ((5,) if big else ()):
        for batch in (1, 2, 3):
            for sub in (None, 1, 2, 3):
                res.append({'mode': 'random', 'n': n, 'batch': batch, 'subsample': sub})
        for sub in (None, 1, 2, 3):
            res.append({'mode': 'uncertainty', 'n': n, 'subsample': sub, 'big': big})
            if n == 3 or big:
                res.append({'mode': 'uncertainty', 'n': n, 'subsample': sub, 'big': False, 'columns': True})
                res.append({'mode': 'random', 'n': n, 'batch': 1, 'subsample': sub, 'columns': True})
    res.append({'mode': 'arguments'})
    return res


def run(cfg, stats):
    {'margin': run_margin, 'random': run_random, 'uncertainty': run_uncertainty, 'arguments': run_arguments}[cfg['mode']](cfg, stats)


def kernel(spec, A, B, gamma):
    if spec['kernel'] == 'linear':
        return np.array([[math.fsum(a * b for a, b in zip(x, z)) for z in B] for x in A])
    return np.array([[math.exp(-gamma * math.fsum((a - b) ** 2 for a, b in zip(x, z))) for z in B] for x in A])


def solve(spec, C, train, y):
    """ dual solution. :return: decision function, square norm of the weight vector, or None if it is not determined well enough """
    gamma = spec.get('gamma', 'auto')
    if gamma == 'auto':
        gamma = 1. / len(train[0])
    elif gamma == 'scale':
        v = np.array(train).var()
        gamma = 1. / (len(train[0]) * v) if v else 1.
    K = kernel(spec, train, train, gamma)
    svc = SVC(C=C, kernel='precomputed', tol=1e-3)
    svc.fit(K, y)
    alpha = np.zeros(len(train))
    alpha[svc.support_] = svc.dual_coef_[0]
    b = float(svc.intercept_[0])
    return lambda Q: kernel(spec, Q, train, gamma) @ alpha + b, float(alpha @ (K @ alpha + b))


def create(cfg):
    return (SimpleMargin if cfg['kind'] == 'simple' else RatioMargin)(C=cfg['C'], **KERNELS[cfg['kernel']])


def ratio(cfg, train, y, x, lower):
    spec = KERNELS[cfg['kernel']]
    m = [solve(spec, cfg['C'], train + [x], list(y) + [label])[1] for label in (0., 1.)]
    if max(m) < 1e-6:
        return None
    return -min(m) / max(m) if min(m) > 0 else 0.


def close(a, b):
    return abs(a - b) <= 5e-3 * max(1., abs(b))


def run_margin(cfg, stats):
    pts = POINTS[cfg['dim']]
    queries = pts + [tuple(2.5 - 0.75 * v for v in p) for p in pts]
    count, case = 0, {'config': cfg}
    for chosen in itertools.permutations(range(len(pts)), cfg['size']):
        for y in itertools.product((0., 1.), repeat=cfg['size']):
            count += 1
            if len(set(y)) < 2 or (not cfg['big'] and cfg['size'] > 2 and count % (3 if cfg['kind'] == 'simple' else 7)):
                continue
            train = [pts[i] for i in chosen]
            case = {'points': train, 'labels': y, 'config': cfg, 'kernel': KERNELS[cfg['kernel']]}
            stats.current = case
            learner = create(cfg)
            other = [pts[i] for i in chosen[::-1]], [1 - v for v in y]
            f, _ = solve(KERNELS[cfg['kernel']], cfg['C'], train, y)
            value = f(queries)
            for attempt in range(2):  # at once; again after having been trained on other labels
                if attempt:
                    if not count % 2:
                        learner = create(cfg)  # whose first training is on the other labels
                    learner.fit(np.array(other[0]), np.array(other[1]))
                    learner.rank(np.array(queries[:2]))
                    if count % 2:
                        learner.clear()
                    else:
                        for ask in (learner.predict, learner.predict_proba, learner.rank):
                            ask(np.array(queries))
                X, t = np.array(train), np.array(y)
                learner.fit(X, t)
                stats.executions += 1
                stats.state(case, attempt)
                if not examine(learner, cfg, train, y, queries, value, case, stats):
                    return
                if X.tolist() != [list(x) for x in train] or t.tolist() != list(y):
                    return stats.violation('arguments', 'training data was modified: {}'.format(case), case)
    stats.sample(case)


def examine(learner, cfg, train, y, queries, value, case, stats):
    Q = np.array(queries)

    def predictions(when):
        stats.step()
        p, lb = np.ravel(learner.predict_proba(Q)), np.ravel(learner.predict(Q))
        for i, v in enumerate(value):
            if not close(p[i], 1 / (1 + math.exp(-max(min(v, 700), -700)))):
                stats.violation('probability', 'probabilities {} are {}, decision function {}: {}'.format(when, p, value, case), case)
                return False
            if abs(v) > 1e-2 and (lb[i] == 1) != (v > 0):
                stats.violation('label', 'labels {} are {}, decision function {}: {}'.format(when, lb, value, case), case)
                return False
        return True

    if not predictions('after training'):
        return False
    if cfg['kind'] == 'simple':
        expected = [abs(v) for v in value]
    else:
        expected = [ratio(cfg, train, y, x, True) for x in queries]
    for g in (list(range(len(queries))), [0], [len(queries) - 1], list(range(len(queries)))[::-1], [2, 2, 5]):
        before = Q[g].copy()
        arg = before.copy()
        ranks = np.ravel(learner.rank(arg)).tolist()
        stats.step()
        if len(ranks) != len(g) or any(not np.isfinite(r) or (expected[i] is not None and not close(r, expected[i])) for r, i in zip(ranks, g)) or arg.tolist() != before.tolist():
            stats.violation('rank', 'ranks of {} are {}, expected {}: {}'.format(g, ranks, [expected[i] for i in g], case), case)
            return False
    stats.outcome('{} of {} positive'.format(int((value > 0).sum()), len(value)))
    return predictions('after ranking')


# samplers

class Stub:
    def __init__(self, values):
        self.values, self.log = values, []

    def fit(self, X, y):
        self.log.append((np.array(X).tolist(), np.array(y).tolist()))

    def predict_proba(self, X):
        return np.array([self.values[int(x[0]) - 100] for x in X])

    def predict(self, X):
        return (self.predict_proba(X) > 0.5).astype(float)


class Columns(Stub):
    """ a classifier of scikit-learn gives one column of probabilities per class it was trained on """
    def fit(self, X, y):
        super().fit(X, y)
        self.classes_ = np.unique(y)

    def positive(self, X):
        p = np.array([self.values[int(x[0]) - 100] for x in X])
        return p if len(self.classes_) == 2 else np.full(len(X), self.classes_[0])

    def predict_proba(self, X):
        p = self.positive(X)
        return np.c_[1 - p, p] if len(self.classes_) == 2 else np.ones((len(X), 1))

    def predict(self, X):
        return (self.positive(X) > 0.5).astype(float)


def divisions(n):
    for kinds in itertools.product('LIU', repeat=n):
        if 'L' in kinds and set(kinds) != {'L'}:
            yield kinds


def dataset(kinds):
    index = INDEXES['rotated'](len(kinds))
    data = PartitionedDataset(make_data(len(kinds)), index, copy=True)
    inferred = [index[i] for i, k in enumerate(kinds) if k == 'I']
    labeled = [index[i] for i, k in enumerate(kinds) if k == 'L']
    if inferred:
        data.move_to_inferred(inferred)
    data.move_to_labeled(LabeledSet(np.array([float(i % 2) for i in range(len(labeled))]), index=np.array(labeled)))
    return data


def fit(model, stub, data, case, stats):
    model.fit_data(data)
    X, y = data.training_set()
    if len(stub.log) != 1 or sorted(zip(map(tuple, stub.log[0][0]), stub.log[0][1])) != sorted(zip(map(tuple, X.tolist()), y.tolist())):
        stats.violation('training', 'classifier was trained on {}, labeled data is {}: {}'.format(stub.log, (X, y), case), case)
    Q = data.data.copy()
    if model.predict(Q).tolist() != stub.predict(Q).tolist() or np.array(model.predict_proba(Q)).tolist() != (stub.positive if isinstance(stub, Columns) else stub.predict_proba)(Q).tolist():
        stats.violation('predictions', 'predictions are not those of the classifier: {}'.format(case), case)


def run_random(cfg, stats):
    values = [0.3, 0.6, 0.5, 0.9, 0.1]
    for kinds in divisions(cfg['n']):
        case = {'division': ''.join(kinds), 'config': cfg}
        reached = set()
        pool = [i for i, k in enumerate(kinds) if k != 'L']

        def execution(ch):
            data = dataset(kinds)
            stub = cfg.get('columns') and Columns(values) or Stub(values)
            model = RandomSampler(stub, batch_size=cfg['batch'])
            with controlled(ch):
                fit(model, stub, data, case, stats)
                nxt = model.next_points_to_label(data, cfg['subsample'])
            stats.step()
            rows = [int(x[0]) - 100 for x in nxt.data]
            idx = INDEXES['rotated'](cfg['n'])
            if not set(rows) <= set(pool) or len(set(rows)) != len(rows) or np.array(nxt.index).tolist() != [idx[r] for r in rows]:
                stats.violation('next', 'proposed {} ({}), unlabeled are {}: {}'.format(rows, nxt.index, pool, case), case)
            reached.add(tuple(sorted(rows)))
            stats.state(case, sorted(rows))

        explore(execution, stats)
        size = min(cfg['batch'], cfg['subsample'] or cfg['n'], len(pool))
        expected = set(itertools.combinations(pool, size))
        stats.check(reached == expected, 'reachable', 'batches {} are proposed, expected {}: {}'.format(sorted(reached), sorted(expected), case), case)
        stats.outcome('{} batches'.format(len(expected)))
    stats.sample(case)


def run_uncertainty(cfg, stats):
    menu = (0., 0.25, 0.5, 0.75, 1.) if cfg['n'] < 4 or cfg['big'] and cfg['n'] < 5 else (0.25, 0.5, 1.)
    for kinds in divisions(cfg['n']):
        pool = [i for i, k in enumerate(kinds) if k != 'L']
        for values in itertools.product(menu, repeat=len(pool)):
            full = [0.] * cfg['n']
            for i, v in zip(pool, values):
                full[i] = v
            if cfg.get('columns') and kinds.count('L') == 1:  # the first labeled point is negative
                full = [0.] * cfg['n']
            case = {'division': ''.join(kinds), 'probabilities': full, 'config': cfg}
            reached = set()

            def execution(ch):
                data = dataset(kinds)
                stub = Columns(full) if cfg.get('columns') else Stub(full)
                model = UncertaintySampler(stub)
                with controlled(ch):
                    fit(model, stub, data, case, stats)
                    nxt = model.next_points_to_label(data, cfg['subsample'])
                stats.step()
                rows = [int(x[0]) - 100 for x in np.asarray(nxt.data).reshape(-1, 2)]
                if len(rows) != 1 or rows[0] not in pool:
                    stats.violation('next', 'proposed {}, unlabeled are {}: {}'.format(rows, pool, case), case)
                reached.update(rows)
                got = model.rank(data.data).tolist()
                if got != [abs(full[int(x[0]) - 100] - 0.5) for x in data.data]:
                    stats.violation('uncertainty', 'ranks are {}, probabilities {}: {}'.format(got, full, case), case)

            explore(execution, stats)
            size = min(cfg['subsample'] or cfg['n'], len(pool))
            score = {i: abs(full[i] - 0.5) for i in pool}
            expected = set(i for s in itertools.combinations(pool, size) for i in s if score[i] == min(score[j] for j in s))
            stats.state(case)
            stats.check(reached == expected, 'most-uncertain', 'points {} are proposed, expected {}: {}'.format(sorted(reached), sorted(expected), case), case)
    stats.sample(case)


def run_arguments(cfg, stats):
    for batch, ok in ((1, True), (5, True), (0, False), (-1, False), (1.5, False)):
        try:
            RandomSampler(Stub([]), batch_size=batch)
            accepted = True
        except (ValueError, TypeError, AssertionError):
            accepted = False
        stats.step()
        stats.executions += 1
        stats.state(batch)
        stats.check(accepted == ok, 'arguments', 'batch_size={} accepted={}'.format(batch, accepted), {'batch': batch})
    stats.sample({'batch sizes': 5})
