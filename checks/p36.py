import itertools

import numpy as np
from sklearn.base import BaseEstimator

from aideme import LabeledSet, PartitionedDataset
from aideme.active_learning import QueryByDisagreement

from checks.datasets import INDEXES, make_data
from mc.choice import controlled, explore

PROPERTY = 'P36'
RULE = 'every division of up to 5 points into labeled, inferred and unknown ones, every labeling, every background size and weight of a menu, and every outcome ' \
       'of the random choices, over sessions of up to 3 trainings: data given to the three classifiers, ranks and choice of the next point are ' \
       'compared with the definition; all background samples must be reachable'
ASSUMPTIONS = ['the classifier is a recording one which can be cloned as scikit-learn classifiers', 'at most 5 points', 'all random draws go through numpy.random']

LOG = []


class Recorder(BaseEstimator):
    """ labels a point as the heavier of the two classes among its (weighted) neighbours in the training data """
    def __init__(self, reach=1.5):
        self.reach = reach

    def fit(self, X, y, sample_weight=None):
        LOG.append((self, np.array(X).tolist(), np.array(y, dtype=float).tolist(), None if sample_weight is None else np.array(sample_weight, dtype=float).tolist()))
        w = np.ones(len(X)) if sample_weight is None else np.array(sample_weight)
        self.X_, self.y_, self.w_ = np.array(X), np.array(y), w
        return self

    def predict_proba(self, X):
        near = np.abs(np.asarray(X)[:, :1] - self.X_[:, 0]) <= self.reach
        pos, neg = (near * self.w_ * (self.y_ == 1)).sum(axis=1), (near * self.w_ * (self.y_ != 1)).sum(axis=1)
        return np.where(pos + neg > 0, pos / np.maximum(pos + neg, 1e-300), 0.5)

    def predict(self, X):
        return (self.predict_proba(X) > 0.5).astype(float)


class Columns(Recorder):
    """ gives one column of probabilities per class, as classifiers of scikit-learn """
    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(y)
        return super().fit(X, y, sample_weight)

    def positive(self, X):
        return super().predict_proba(X)

    def predict(self, X):
        return (self.positive(X) > 0.5).astype(float)

    def predict_proba(self, X):
        p = self.positive(X)
        return np.c_[1 - p, p] if len(self.classes_) == 2 else np.ones((len(X), 1))


def configs(tier):
    big = tier == 'thorough'
    res = []
    for n in (3, 4) + ((5,) if big else ()):
        for size in (1, 2, 3, 10):
            for weight in (1e-5, 0.7, 3.):
                for index in ('default', 'rotated') if n == 3 else ('rotated',):
                    res.append({'mode': 'single', 'n': n, 'size': size, 'weight': weight, 'index': index})
            res.append({'mode': 'single', 'n': n, 'size': size, 'weight': 0.7, 'index': 'rotated', 'columns': True})
    for size in (1, 2, 10):
        for first in (1, 2):
            res.append({'mode': 'session', 'n': 4, 'size': size, 'first': first, 'big': big})
    res.append({'mode': 'arguments'})
    return res


def run(cfg, stats):
    {'single': run_single, 'session': run_session, 'arguments': run_arguments}[cfg['mode']](cfg, stats)


def rows(X, y, w):
    return sorted(zip(map(tuple, X), y, w))


def examine(model, main, data, cfg, case, stats):
    """ compares a training with the definition. :return: background sample, or None in case of a violation """
    lab = data.labeled
    y = dict(zip(data.labeled_set.index.tolist(), data.labeled_set.labels.tolist()))
    labeled = [(tuple(x), float(y[i])) for i, x in zip(lab.index.tolist(), lab.data.tolist())]
    pool = sorted(tuple(x) for x in data.unlabeled.data.tolist())

    def bad(key, msg):
        stats.violation(key, '{}: {}'.format(msg, case), case)

    last = {}
    for obj, X, t, w in LOG:
        last[id(obj)] = (obj, X, t, w)
    mains = [v for v in last.values() if v[0] is main]
    others = [v for v in last.values() if v[0] is not main]
    if len(mains) != 1 or len(others) != 2:
        return bad('classifiers', '{} classifiers trained besides the one of the user ({})'.format(len(others), len(mains)))
    _, X, t, w = mains[0]
    if rows(X, t, w or [1.] * len(X)) != rows(*zip(*[(x, v, 1.) for x, v in labeled])):
        return bad('main', 'classifier of the user was trained on {}'.format(mains[0][1:]))
    found = {}
    for obj, X, t, w in others:
        rest = rows(X, t, w or [1.] * len(X))
        for x, v in labeled:
            if (x, v, 1.) not in rest:
                return bad('labeled', 'a biased classifier was trained without ({}, {}) of weight 1: {}'.format(x, v, rest))
            rest.remove((x, v, 1.))
        sides = set(v for _, v, _ in rest)
        if any(abs(b - cfg['weight']) > 1e-12 for _, _, b in rest) or len(sides) > 1 or len(rest) != min(cfg['size'], len(pool)):
            return bad('background', 'background of a biased classifier is {}, pool {}'.format(rest, pool))
        points = [x for x, _, _ in rest]
        if len(set(points)) != len(points) or not set(points) <= set(pool):
            return bad('background', 'background points {} are not distinct unlabeled points {}'.format(points, pool))
        found[sides.pop() if sides else 'none{}'.format(len(found))] = (obj, tuple(points))
    if pool and set(found) != {0., 1.}:
        return bad('bias', 'background labels of the two classifiers are {}'.format(sorted(found)))
    (a, pa), (b, pb) = found.values()
    if pa != pb:
        return bad('background', 'biased classifiers have different background samples {} and {}'.format(pa, pb))
    # answers
    queries = data.data.copy()
    expected = np.where(a.predict(queries) != b.predict(queries), 0, 1)
    before = queries.tolist()
    ranks = np.array(model.rank(queries))
    if ranks.shape != expected.shape or len(set(ranks[expected == 0].tolist())) > 1 or len(set(ranks[expected == 1].tolist())) > 1 or not np.all(np.isfinite(ranks)):
        return bad('rank', 'ranks are {}, disagreement {}'.format(ranks, 1 - expected))
    if 0 in expected and 1 in expected and not ranks[expected == 0][0] < ranks[expected == 1][0]:
        return bad('rank', 'ranks are {}, disagreement {}'.format(ranks, 1 - expected))
    for k in range(len(queries)):
        if model.rank(queries[k:k + 1]).tolist() != [ranks[k]]:
            return bad('rank-single', 'rank of point {} is {} alone, {} among others'.format(k, model.rank(queries[k:k + 1]), ranks[k]))
    if model.predict(queries).tolist() != main.predict(queries).tolist() or np.array(model.predict_proba(queries)).tolist() != probabilities(main, queries):
        return bad('predictions', 'predictions {} are not those of the classifier trained on labels {}'.format(model.predict(queries), main.predict(queries)))
    if queries.tolist() != before:
        return bad('queries', 'queries were modified')
    stats.outcome('disagreement on {} of {}'.format((expected == 0).sum(), len(expected)))
    return pa, {tuple(x): int(e) for x, e in zip(before, expected)}


def probabilities(main, X):
    if not isinstance(main, Columns):
        return main.predict_proba(X).tolist()
    return main.positive(X).tolist() if len(main.classes_) == 2 else [float(main.classes_[0])] * len(X)


def choose(model, data, expected, ch, case, stats):
    """ next point, all of whose random outcomes are enumerated """
    with controlled(ch):
        nxt = model.next_points_to_label(data)
    pts = [tuple(x) for x in np.asarray(nxt.data).reshape(-1, data.data.shape[1]).tolist()]
    pool = [tuple(x) for x in data.unlabeled.data.tolist()]
    best = min(expected[x] for x in pool)
    if len(pts) != 1 or pts[0] not in pool or expected[pts[0]] != best:
        stats.violation('next', 'proposed {} of {}: {}'.format(pts, {x: expected[x] for x in pool}, case), case)
    return pts[0]


def run_single(cfg, stats):
    n = cfg['n']
    for kinds in itertools.product('LIU', repeat=n):
        labeled = [i for i in range(n) if kinds[i] == 'L']
        inferred = [i for i in range(n) if kinds[i] == 'I']
        if not labeled:
            continue
        for labels in itertools.product((0., 1.), repeat=len(labeled)):
            case = {'divided': ''.join(kinds), 'labels': labels, 'config': cfg}
            reached, nexts = set(), {}

            def execution(ch):
                del LOG[:]
                X, index = make_data(n), make_index(cfg['index'], n)
                data = PartitionedDataset(X, index, copy=True)
                if inferred:
                    data.move_to_inferred([data_index(index, i) for i in inferred])
                data.move_to_labeled(LabeledSet(np.array(labels), index=np.array([data_index(index, i) for i in labeled])))
                main = Columns() if cfg.get('columns') else Recorder()
                model = QueryByDisagreement(main, background_sample_size=cfg['size'], background_sample_weight=cfg['weight'])
                with controlled(ch):
                    model.fit_data(data)
                stats.step()
                res = examine(model, main, data, cfg, case, stats)
                if res is None:
                    return
                reached.add(tuple(sorted(res[0])))
                stats.state(case, sorted(res[0]))
                if len(labeled) < n:
                    nexts.setdefault(tuple(sorted(res[0])), (set(), res[1]))[0].add(choose(model, data, res[1], ch, case, stats))

            explore(execution, stats)
            unl = n - len(labeled)
            k = min(cfg['size'], unl)
            count = len(list(itertools.combinations(range(unl), k)))
            stats.check(len(reached) == count, 'unreachable', '{} of {} background samples are reachable: {}'.format(len(reached), count, case), case)
            for sample, (got, expected) in nexts.items():
                pool = [x for i, x in enumerate(map(tuple, make_data(n).tolist())) if i not in labeled]
                best = min(expected[x] for x in pool)
                stats.check(got == {x for x in pool if expected[x] == best}, 'unreachable-next', 'points proposed with background {} are {}, disagreement {}: {}'.format(sample, got, expected, case), case)
    stats.sample(case)


def make_index(name, n):
    return INDEXES[name](n) if INDEXES[name] else None


def data_index(index, i):
    return i if index is None else index[i]


def run_session(cfg, stats):
    """ trainings after every further label, all sharing one learner; the second half of a session may follow a clear """
    n = cfg['n']
    for order in itertools.permutations(range(n)):
        for labels in itertools.product((0., 1.), repeat=n):
            if not cfg['big'] and (sum(o * (k + 1) for k, o in enumerate(order)) + int(sum(labels))) % 3:
                continue
            case = {'order': order, 'labels': labels, 'config': cfg}

            def execution(ch):
                X = make_data(n)
                main = Recorder()
                model = QueryByDisagreement(main, background_sample_size=cfg['size'], background_sample_weight=0.5)
                for session in range(2):
                    data = PartitionedDataset(X, None, copy=True)
                    done = 0
                    while done < n:
                        batch = order[:cfg['first']] if done == 0 else order[done:done + 1]
                        data.move_to_labeled(LabeledSet(np.array([labels[i] if session == 0 else 1 - labels[i] for i in batch]), index=np.array(batch)))
                        done += len(batch)
                        del LOG[:]
                        free = session == 0 and done == cfg['first']  # all samples of the first training, fixed ones later
                        with controlled(ch if free else _First()):
                            model.fit_data(data)
                        stats.step()
                        if examine(model, main, data, dict(cfg, weight=0.5), dict(case, labeled=done, session=session), stats) is None:
                            return
                        stats.state(case, session, done, ch.choices)
                    model.clear()

            explore(execution, stats)
    stats.sample(case)


class _First:
    """ always the last option """
    trace = ()

    def choose(self, n):
        return n - 1

    def pick(self, options):
        return list(options)[-1]


def run_arguments(cfg, stats):
    for size, weight, ok in ((0, 1., False), (-1, 1., False), (2.5, 1., False), (1, 0., False), (1, -1., False), (1, 1., True), (3, 1e-9, True)):
        case = {'size': size, 'weight': weight}
        try:
            QueryByDisagreement(Recorder(), background_sample_size=size, background_sample_weight=weight)
            accepted = True
        except (ValueError, TypeError, AssertionError):
            accepted = False
        stats.step()
        stats.state(case)
        stats.executions += 1
        stats.check(accepted == ok, 'arguments', 'accepted={} for {}'.format(accepted, case), case)
    stats.sample(case)
