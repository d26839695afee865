import itertools

import numpy as np

from aideme.active_learning.factorization.partitioning.learn import BruteForceSelector, GreedySelector
from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearClassifier, FactorizedLinearLearner, LinearLoss
from checks.logistic import *
from mc.choice import explore

PROPERTY = 'P31'
RULE = 'for every number of features, limit on sizes and number of parts: brute force with, for each admissible partition, losses which make ' \
       'this one the best, and with all orderings of losses of small sets; greedy with every assignment of losses to the partitions it ' \
       'meets (choice points), against the definition of greedy merging; classifiers and gradients for all weights over an alphabet, ' \
       'and all merges of two parts'
ASSUMPTIONS = ['at most 5 features (brute force), 4 (greedy)', 'losses are numbers']


def configs(tier):
    big = tier == 'thorough'
    res = [{'mode': 'brute', 'n': n, 'dim': d, 'parts': p} for n in range(1, 6 if not big else 7) for d in [None] + list(range(1, n + 2)) for p in [None] + list(range(1, n + 2))]
    for n in (1, 2, 3, 4):
        for d in [None] + list(range(1, n + 1)):
            for p in [None] + list(range(1, n + 1)):
                for warm in (True, False):
                    res.append({'mode': 'greedy', 'n': n, 'dim': d, 'parts': p, 'warm': warm, 'big': big})
    for part in ([[0]], [[0, 1]], [[0], [1]], [[1], [0]], [[0, 2], [1]], [[2], [1], [0]], [[0], [1], [2], [3]], [[3, 0], [1, 2]]):
        res.append({'mode': 'loss', 'partition': part, 'big': big})
    res.append({'mode': 'fit', 'big': big})
    return sorted(res, key=lambda c: -c.get('n', 9))


def partitions(items):
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        yield [[first]] + p
        for k in range(len(p)):
            yield p[:k] + [[first] + p[k]] + p[k + 1:]


def canon(partition):
    return tuple(sorted(tuple(sorted(int(v) for v in p)) for p in partition))


class Losses:
    """ in place of the learner: losses of partitions are given by a function """
    def __init__(self, f):
        self.f, self.asked, self.shapes = f, [], []

    def compute_factorization_loss(self, X, y, partition, x0=None):
        return self.fit_and_loss(X, y, partition, x0)[1]

    def fit(self, X, y, partition, x0=None):
        return self.fit_and_loss(X, y, partition, x0)[0]

    def fit_and_loss(self, X, y, partition, x0=None):
        self.asked.append(canon(partition))
        self.shapes.append((len(partition) + sum(map(len, partition)), None if x0 is None else len(x0)))
        return FactorizedLinearClassifier([list(p) for p in partition]), self.f(canon(partition))


def run(cfg, stats):
    {'brute': run_brute, 'greedy': run_greedy, 'loss': run_loss, 'fit': run_fit}[cfg['mode']](cfg, stats)


def feasible(cfg):
    n = cfg['n']
    d = n if cfg['dim'] is None else min(n, cfg['dim'])
    p = n if cfg['parts'] is None else min(n, cfg['parts'])
    return d, p, d * p >= n


def run_brute(cfg, stats):
    n = cfg['n']
    d, p, ok = feasible(cfg)
    X, y = np.zeros((2, n)), np.array([0., 1.])
    valid = [canon(q) for q in partitions(list(range(n))) if len(q) <= p and max(map(len, q)) <= d]
    selector = BruteForceSelector(max_partitions=cfg['parts'], max_dim=cfg['dim'])
    if not ok:
        try:
            selector(X, y, Losses(lambda q: 0.))
            stats.violation('infeasible', 'no error for {}'.format(cfg))
        except ValueError:
            stats.outcome('infeasible')
        stats.executions += 1
        return
    allp = [canon(q) for q in partitions(list(range(n)))]
    for k, best in enumerate(valid):
        for others in (lambda q: 1.0, lambda q: 1.0 + hash(q) % 7, lambda q: -5.0 if q not in valid else 1.0):
            res = selector(X, y, Losses(lambda q: -1.0 if q == best else others(q)))
            stats.executions += 1
            stats.step()
            if canon(res) != best:
                stats.violation('not-best', 'selected {} with the best loss at {}: {}'.format(res, best, cfg), {'best': best})
        # two good partitions, one slightly better
        other = valid[(k + 1) % len(valid)]
        if other != best:
            res = selector(X, y, Losses(lambda q: -1.0 if q == best else -1.0 + 1e-9 if q == other else 3.0))
            if canon(res) != best:
                stats.violation('not-best', 'selected {} with the best loss at {}, then {}: {}'.format(res, best, other, cfg), {'best': best})
        stats.state(cfg, best)
    stats.outcome('{} partitions'.format(len(valid)))
    stats.sample({'config': cfg, 'admissible': valid[:6], 'of': len(allp)})


def run_greedy(cfg, stats):
    n = cfg['n']
    d, p, ok = feasible(cfg)
    X, y = np.zeros((2, n)), np.array([0., 1.])
    if not ok:
        try:
            GreedySelector(max_partitions=cfg['parts'], max_dim=cfg['dim'])(X, y, Losses(lambda q: 0.))
            stats.violation('infeasible', 'no error for {}'.format(cfg))
        except ValueError:
            stats.outcome('infeasible')
        return

    values = (1.0, 0.5, 0.25) if n < 4 or cfg['big'] else (1.0, 0.5)

    def execution(ch):
        loss = {}

        def f(q):
            if q not in loss:
                loss[q] = ch.pick(values) - (0.5 * (n - len(q)) if ch.bonus else 0)
            return loss[q]

        ch.bonus = ch.choose(2)  # levels with lower losses, so that more merges take place
        learner = Losses(f)
        res = GreedySelector(max_partitions=cfg['parts'], max_dim=cfg['dim'], warm_start=cfg['warm'])(X, y, learner)
        case = {'config': cfg, 'losses': {str(k): v for k, v in loss.items()}}
        stats.step()
        if p == 1 or n == 1:
            want = {(tuple(range(n)),)}
        elif d == 1:
            want = {tuple((i,) for i in range(n))}
        else:
            want = greedy(n, d, loss)
        if any(a != b for a, b in learner.shapes[1:]):
            stats.violation('warm-start', 'starting weights have lengths {} (expected, given): {}'.format(learner.shapes, case), case)
        if canon(res) not in want:
            return stats.violation('greedy', 'selected {}, expected one of {}: {}'.format(res, want, case), case)
        stats.state(cfg, sorted(loss.items()))
        stats.outcome('{} parts'.format(len(res)))
        if len(res) > p:
            stats.violation('greedy-exceeds-max-partitions', 'selected {} with max_partitions = {}: {}'.format(res, cfg['parts'], case), case)
        stats.sample(dict(case, selected=res))

    count = explore(execution, stats, limit=None if cfg['big'] else 60000)


def greedy(n, d, loss):
    """ all results of greedy merging, for all choices among ties for which the selector asked for losses """
    level, done = {tuple((i,) for i in range(n))}, set()
    while level:
        nxt = set()
        for q in level:
            merged = []
            for a, b in itertools.combinations(q, 2):
                m = canon([g for g in q if g not in (a, b)] + [a + b])
                if max(map(len, m)) <= d:
                    merged.append(m)
            if any(m not in loss for m in merged):  # another choice among ties was made
                continue
            low = min([loss[m] for m in merged] or [np.inf])
            if low < loss[q]:
                nxt |= {m for m in merged if loss[m] == low}
            else:
                done.add(q)
        level = nxt
    return done


def run_loss(cfg, stats):
    part = cfg['partition']
    D = sum(map(len, part))
    n_par = D + len(part)
    alphabet = [-3.0, 0.5, 2.0] if n_par <= 5 else [-2.0, 0.75] if n_par <= 8 else [-2.0, 0.75]
    X = np.array([[1., -2., 0.5, 3.], [0., 1., -1., 2.], [30., 1., 1., 0.]])[:, :D]
    for w in itertools.product(alphabet, repeat=n_par):
        clf = FactorizedLinearClassifier(part, np.array(w))
        begin, bias, W = 0, [], []
        for p in part:
            bias.append(w[begin])
            row = [0.] * D
            for c, j in zip(w[begin + 1:], p):
                row[j] = c
            W.append(row)
            begin += 1 + len(p)
        ms = margins_of(X, bias, W)
        want = np.array([math.exp(log_proba(m)) for m in ms])
        case = {'partition': part, 'weights': w}
        stats.executions += 1
        stats.state(case)
        if not np.allclose(clf.predict_proba(X), want, rtol=1e-9, atol=1e-300):
            stats.violation('probability', 'probabilities {}, expected {}: {}'.format(clf.predict_proba(X), want, case), case)
        if clf.predict(X).tolist() != [int(v > 0.5) for v in want] and np.abs(want - 0.5).min() > 1e-9:
            stats.violation('prediction', 'predictions {} for {}: {}'.format(clf.predict(X), want, case), case)
        for k in range(len(part)):
            got = clf.partial_proba(X[:, part[k]], k)
            if not np.allclose(got, [sigmoid(m[k]) for m in ms], rtol=1e-9, atol=1e-300):
                stats.violation('partial', 'partial probability {} of part {}: {}'.format(got, k, case), case)
        for labels in itertools.product((0, 1), repeat=len(X)):
            loss, gw, gb = loss_and_grad(X, labels, bias, W)
            got, grad = LinearLoss(X, np.array(labels), FactorizedLinearClassifier(part))(np.array(w))
            exp = np.concatenate([np.r_[gb[k], [gw[k][j] for j in p]] for k, p in enumerate(part)])
            stats.step()
            if not abs(got - loss) <= 1e-9 * max(1, loss) or not np.allclose(grad, exp, rtol=1e-8, atol=1e-9):
                stats.violation('gradient', 'loss {} and gradient {}, expected {} {}: {} labels {}'.format(got, grad, loss, exp, case, labels), case)
        for i, j in itertools.product(range(len(part)), repeat=2):
            merged = clf.merge_partitions(i, j)
            stats.step()
            want_p = canon(part) if i == j else canon([q for k, q in enumerate(part) if k not in (i, j)] + [part[i] + part[j]])
            if canon(merged.partition) != want_p:
                stats.violation('merge', 'merging {} and {} gives {}: {}'.format(i, j, merged.partition, case), case)
                continue
            if i != j:  # the margin of the merged part is the sum of both margins
                k = [canon([q]) for q in merged.partition].index(canon([part[i] + part[j]]))
                got = merged.partial_proba(X[:, merged.partition[k]], k)
                if not np.allclose(got, [sigmoid(m[i] + m[j]) for m in ms], rtol=1e-9, atol=1e-300):
                    stats.violation('merge-weights', 'merged part has probabilities {}: {} {}'.format(got, (i, j), case), case)
                for q in range(len(part)):
                    if q not in (i, j):
                        k = [canon([r]) for r in merged.partition].index(canon([part[q]]))
                        if not np.allclose(merged.partial_proba(X[:, merged.partition[k]], k), [sigmoid(m[q]) for m in ms], rtol=1e-9, atol=1e-300):
                            stats.violation('merge-others', 'part {} changed when {} were merged: {}'.format(q, (i, j), case), case)
                if np.any(clf.merge_partitions(i, j, merge_weights=False).weights):
                    stats.violation('merge-zero', 'weights are not zero: {}'.format(case), case)
    stats.outcome('{} weights'.format(n_par))


def run_fit(cfg, stats):
    """ training ends at a point where the gradient vanishes, from any start """
    X = np.array([[1., 0.], [0., 1.], [1., 1.], [-1., 0.5], [0.3, -1.], [-1., -1.]])
    for labels in ((1, 0, 0, 1, 1, 0), (0, 1, 1, 0, 1, 1), (1, 0, 1, 1, 0, 0)):
        for part in ([[0], [1]], [[0, 1]], [[1], [0]]):
            n = 2 + len(part)
            for start in [None] + [np.array(s) for s in itertools.product((-1., 0.5), repeat=n)]:
                clf, loss = FactorizedLinearLearner(gtol=1e-5).fit_and_loss(X, np.array(labels), part, start)
                value, grad = LinearLoss(X, np.array(labels), FactorizedLinearClassifier(part))(clf.weights.copy())
                stats.executions += 1
                stats.step()
                stats.state('fit', labels, part, None if start is None else start.tolist())
                if abs(value - loss) > 1e-9 or np.abs(grad).max() > 1e-3:
                    stats.violation('fit', 'loss {} reported, {} with gradient {} at the weights: {} {} {}'.format(loss, value, grad, labels, part, start))
