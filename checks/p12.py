import itertools
import math
import time
from fractions import Fraction

import numpy as np

from aideme.explore import LabeledSet, PartitionedDataset
from aideme.utils import metric_logger
from aideme.utils.convergence import max_iter_reached, metric_reached_threshold
from aideme.utils.metrics import classification_metrics, prediction_entropy, three_set_metric, training_classification_metrics

PROPERTY = 'P12'
RULE = 'every pair of true / predicted label vectors over <= 5 points, every 3-set prediction and every probability vector over the alphabet, for every division ' \
       'of the points into labeled, inferred and unknown ones, ' \
       'and every sequence of metric logger operations up to the depth of the shard; compared with the definitions in exact arithmetic'
ASSUMPTIONS = ['at most 5 points', 'labels are 0 or 1']

SCORES = ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'accuracy', 'precision', 'recall', 'fscore']


class Fixed:
    def __init__(self, answers):
        self.answers = answers

    def predict(self, X):
        return np.array([self.answers[int(x)] for x in X[:, 0]])

    def predict_proba(self, X):
        raise AssertionError('probabilities are not needed')


class Probabilities(Fixed):
    def predict(self, X):
        raise AssertionError('labels are not needed')

    predict_proba = Fixed.predict


class Opaque:
    """ a value that can only be added and compared """
    def __init__(self, v):
        self.v = v

    def __add__(self, other):
        return Opaque(self.v + other.v)

    def __eq__(self, other):
        return isinstance(other, Opaque) and self.v == other.v

    def __bool__(self):
        raise AssertionError('values have no truth value')

    __hash__ = None

    def __repr__(self):
        return 'Opaque({})'.format(self.v)


def reference(y, p):
    tp = sum(a == b == 1 for a, b in zip(y, p))
    tn = sum(a == b == 0 for a, b in zip(y, p))
    fp = sum(a == 0 and b == 1 for a, b in zip(y, p))
    fn = sum(a == 1 and b == 0 for a, b in zip(y, p))
    div = lambda a, b: Fraction(a, b) if b else Fraction(0)
    return {'true_positive': tp, 'false_positive': fp, 'true_negative': tn, 'false_negative': fn, 'accuracy': div(tp + tn, len(y)),
            'precision': div(tp, tp + fp), 'recall': div(tp, tp + fn), 'fscore': div(2 * tp, 2 * tp + fp + fn)}


def configs(tier):
    res = [{'mode': 'scores', 'n': n} for n in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5))]
    res += [{'mode': m, 'n': n} for m in ('tsm', 'entropy') for n in (1, 2, 3, 4)]
    res += [{'mode': 'logger', 'depth': 3 if tier == 'quick' else 4, 'first': i} for i in range(10)]
    res += [{'mode': 'convergence'}, {'mode': 'arguments'}]
    return res


def close(a, b):
    return not isinstance(a, complex) and not math.isnan(float(a)) and abs(float(a) - float(b)) < 1e-12


def run(cfg, stats):
    globals()['run_' + cfg['mode']](cfg, stats)


def run_scores(cfg, stats):
    n = cfg['n']
    X = np.arange(n, dtype=float).reshape(-1, 1)
    sets = [SCORES, SCORES[::-1], ['fscore'], ['accuracy', 'recall'], []] if n < 4 else [SCORES]
    for y in itertools.product((0, 1), repeat=n):
        for p in itertools.product((0, 1), repeat=n):
            for dtype in (int, float):
                ref = reference(y, p)
                learner = Fixed(np.array(p, dtype=dtype))
                for names in sets:
                    for prefix in ('', 'x_'):
                        stats.executions += 1
                        stats.step()
                        got = classification_metrics(X, np.array(y), names, prefix)(None, learner)
                        stats.state(y, p, names)
                        if set(got) != {prefix + s for s in names} or not all(close(got[prefix + s], ref[s]) for s in names):
                            stats.violation('classification', 'true labels {}, predicted {}: metrics {}, expected {}'.format(y, p, got, ref), [y, p])
                # training metrics: only over labeled points, whatever the order in which they were labeled
                for order in (list(range(n)), list(range(n))[::-1]):
                    for k in (n, max(1, n - 1)):
                        data = PartitionedDataset(X.copy(), np.arange(n)[::-1].copy())
                        # index n-1-i belongs to row i
                        batch = order[:k]
                        for part in ([batch], [batch[:1], batch[1:]], [batch[:-1], batch[-1:]])[(k + sum(p) + order[0]) % 3 if n > 3 else (order[0] + k) % 3]:
                            if part:
                                data.move_to_labeled(LabeledSet([y[i] for i in part], index=[n - 1 - i for i in part]))
                        if k < n and p[0]:
                            data.move_to_inferred([n - 1 - i for i in range(n) if i not in batch])
                        got = training_classification_metrics(SCORES, 't_')(data, learner)
                        ref2 = reference([y[i] for i in batch], [p[i] for i in batch])
                        stats.executions += 1
                        if set(got) != {'t_' + s for s in SCORES} or not all(close(got['t_' + s], ref2[s]) for s in SCORES):
                            stats.violation('training', 'labeled {}: true labels {}, predicted {}: metrics {}, expected {}'.format(batch, y, p, got, ref2), [y, p])
            stats.outcome('scores')
    stats.sample({'y': y, 'p': p})


def datasets(X):
    """ (history, dataset): every division into points labeled at first, labeled later, inferred, and unknown """
    for parts in itertools.product('1LIU' if len(X) < 4 else '1LI', repeat=len(X)):
        data = PartitionedDataset(X.copy())
        for name in '1L':
            pts = [i for i, q in enumerate(parts) if q == name]
            if pts:
                data.move_to_labeled(LabeledSet([i % 2 for i in pts], index=pts))
        data.move_to_inferred([i for i, q in enumerate(parts) if q == 'I'])
        yield ''.join(parts), data


def run_tsm(cfg, stats):
    n = cfg['n']
    X = np.arange(n, dtype=float).reshape(-1, 1)
    for p in itertools.product((0, 0.5, 1), repeat=n):
        class Learner:
            polytope_model = Fixed(np.array(p))

        pos, unk = p.count(1), p.count(0.5)
        ref = Fraction(pos, pos + unk) if pos + unk else 0
        for hist, data in datasets(X):
            got = three_set_metric(data, Learner())
            stats.executions += 1
            stats.step()
            stats.state('tsm', p, hist)
            stats.outcome('tsm')
            if set(got) != {'tsm'} or not close(got['tsm'], ref):
                stats.violation('tsm', 'three set predictions {}: {}, expected {}: {}'.format(p, got, ref, hist), [p, hist])
        # lower bound of f-score for any labels compatible with the predictions, when the learner predicts unknown as negative or positive
    data = PartitionedDataset(X.copy())
    stats.check(three_set_metric(data, Fixed(np.array(p))) == {}, 'tsm-none', 'metrics of a learner without polytope model')
    stats.sample({'predictions': p})


def run_entropy(cfg, stats):
    n = cfg['n']
    X = np.arange(n, dtype=float).reshape(-1, 1)
    for p in itertools.product((0., 0.125, 0.5, 1.), repeat=n):
        h = lambda q: 0 if q in (0, 1) else -q * math.log(q) - (1 - q) * math.log(1 - q)
        ref = sum(map(h, p)) / n
        for hist, data in datasets(X):
            got = prediction_entropy(data, Probabilities(np.array(p)))
            stats.executions += 1
            stats.step()
            stats.state('entropy', p, hist)
            stats.outcome('entropy')
            if set(got) != {'prediction_entropy'} or not close(got['prediction_entropy'], ref):
                stats.violation('entropy', 'probabilities {}: {}, expected {}: {}'.format(p, got, ref, hist), [p, hist])
    stats.sample({'probabilities': p})


def run_logger(cfg, stats):
    ops = [('flush',)] + [('set', k, v, 'overwrite') for k, v in (('a', 1), ('b', 2))] + [('set', 'a', 5, 'sum'), ('set', 'b', 2.5, 'SUM'), ('set', 'v', Opaque(3), 'sum'), ('set', 'a', 0, 'sum'), ('many', 'sum'), ('time', 'a'),
           ('set', 'l', 7, 'append'), ('set', 'l', 8, 'Append'), ('many', 'overwrite'), ('time', 'sum'), ('bad',)]

    def rec(hist):
        metric_logger.flush()
        model = {}
        kept = []
        for op in hist:
            if op[0] == 'flush':
                kept.append((metric_logger.get_metrics(), dict(model)))
                metric_logger.flush()
                model = {}
            elif op[0] == 'set':
                metric_logger.log_metric(op[1], op[2], op[3])
                put(model, *op[1:])
            elif op[0] == 'many':
                d = {'a': 3, 'c': 4}
                metric_logger.log_metrics(d, op[1])
                for k, v in d.items():
                    put(model, k, v, op[1])
            elif op[0] == 'bad':
                try:
                    metric_logger.log_metric('a', 1, 'other')
                    stats.violation('bad-option', 'unknown de-duplication strategy is accepted', hist)
                except ValueError:
                    pass
            else:
                @metric_logger.log_execution_time('t', *(['sum'] if op[1] == 'sum' else []))
                def f(x, y=0):
                    """ doc """
                    return x, y
                start = time.perf_counter()
                if f(1, y=2) != (1, 2) or f.__name__ != 'f':
                    stats.violation('time-result', 'timed function returned a wrong value', hist)
                longest = time.perf_counter() - start
                before = model.get('t', 0)
                got = metric_logger.get_metrics().get('t')
                if not isinstance(got, float) or got < 0 or (op[1] == 'sum' and got < before) or got > longest + (before if op[1] == 'sum' else 0) + 1e-9:
                    stats.violation('time', 'execution time is {}, previous one was {}, not more than {} were needed'.format(got, before, longest), hist)
                model['t'] = got
        stats.executions += 1
        stats.step()
        stats.state('logger', hist)
        if metric_logger.get_metrics() != model:
            stats.violation('logger', 'metrics are {}, expected {}\nhistory: {}'.format(metric_logger.get_metrics(), model, hist), hist)
        for got, expected in kept:
            if got != expected:
                stats.violation('aliasing', 'metrics of a previous iteration became {}, expected {}\nhistory: {}'.format(got, expected, hist), hist)
        if len(hist) < cfg['depth']:
            for op in ops:
                rec(hist + [op])

    first = ops[cfg['first']:] if cfg['first'] == 9 else ops[cfg['first']:cfg['first'] + 1]
    for op in first:
        rec([op])
    stats.outcome('logger')
    metric_logger.flush()


def put(model, k, v, how):
    how = how.upper()
    if how == 'OVERWRITE':
        model[k] = v
    elif how == 'SUM':
        model[k] = model[k] + v if k in model else v
    else:
        model[k] = model.get(k, []) + [v]


def run_convergence(cfg, stats):
    class Manager:
        iters = 0

    for limit in (0, 1, 2, 5, math.inf):
        c = max_iter_reached(limit)
        for iters in range(8):
            m = Manager()
            m.iters = iters
            stats.executions += 1
            stats.state('max', limit, iters)
            stats.check(bool(c(m, {})) == (iters > limit), 'max-iter', 'limit {} after {} iterations gives {}'.format(limit, iters, c(m, {})))
    for thr in (-1, 0, 0.5, 1):
        c = metric_reached_threshold('m', thr)
        for metrics in ({}, {'x': 9}, {'m': -2}, {'m': -1}, {'m': 0}, {'m': 0.5}, {'m': 0.75}, {'m': 1, 'x': 0}, {'m': float('nan')}):
            stats.executions += 1
            stats.state('thr', thr, sorted(metrics.items()))
            stats.check(bool(c(Manager(), metrics)) == ('m' in metrics and metrics['m'] >= thr), 'threshold', 'threshold {} with {} gives {}'.format(thr, metrics, c(Manager(), metrics)))


def run_arguments(cfg, stats):
    X, y = np.zeros((2, 1)), np.array([0, 1])
    for names in (['f1'], ['accuracy', 'Accuracy'], ['accuracy', ''], ['tsm', 'recall']):
        for f in (lambda: classification_metrics(X, y, names), lambda: training_classification_metrics(names)):
            try:
                f()
                stats.violation('accepts-unknown-score', 'score functions {} are accepted'.format(names))
            except ValueError:
                stats.executions += 1
    for bad in (-1, 0.5, None, '3'):
        try:
            max_iter_reached(bad)
            stats.violation('accepts-bad-limit', 'iteration limit {} is accepted'.format(bad))
        except ValueError:
            stats.executions += 1
    stats.state('arguments')
