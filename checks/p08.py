import itertools

from aideme.active_learning import ActiveLearner, RandomSampler
from aideme.utils import metric_logger
from checks.datasets import *
from mc.choice import controlled, explore, subsets

PROPERTY = 'P08'
RULE = 'for every division of <= 5 points into labeled / inferred / unknown, every score vector over the alphabet, and every subsample ' \
       'size: all outcomes of all random draws are enumerated; each selected point is checked, and the set of reachable selections is ' \
       'compared with the set of admissible ones'
ASSUMPTIONS = ['scores are numbers (no NaN)', 'at most 5 points', 'all random draws go through numpy.random']

SCORES = {'binary': [0., 1.], 'wide': [-1., 0.5, np.inf], 'inf': [np.inf, -np.inf], 'near': [0.25, 0.25 + 1e-12, 1e10]}


class Scored(ActiveLearner):
    def __init__(self, scores):
        self.scores, self.calls = scores, []

    def rank(self, X):
        pts = [int(x - 100) for x in X[:, 0]]
        self.calls.append(pts)
        return np.array([self.scores[k] for k in pts])


def configs(tier):
    res = []
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for index in ('shifted', 'rotated', 'string'):
            for scores in SCORES:
                if n >= 4 and (scores != 'binary' or index != 'rotated'):
                    continue
                res.append({'mode': 'rank', 'n': n, 'index': index, 'scores': scores})
            res.append({'mode': 'random', 'n': n, 'index': index})
    return sorted(res, key=lambda c: -c['n'])


def states(n):
    """ one history for every labeled / inferred / unknown division with at least one unlabeled point, moves in ascending or descending order """
    for parts in itertools.product('LIU', repeat=n):
        if all(p == 'L' for p in parts):
            continue
        for order in ((1, -1) if n > 1 else (1,)):
            hist = [(p, (k,)) + ((k & 1,) if p == 'L' else ()) for k, p in list(enumerate(parts))[::order] if p != 'U']
            yield hist
            if not hist:
                break


def run(cfg, stats):
    n = cfg['n']
    for hist in states(n):
        probe = System(n, cfg['index'])
        for op in hist:
            probe.apply(op)
        free = {k for k, i in enumerate(probe.model.index) if probe.model.part[i] != LABELED}

        if cfg['mode'] == 'random':
            for batch in (1, 2, 3):
                explore_random(cfg, hist, free, batch, stats)
            continue

        for scores in itertools.product(SCORES[cfg['scores']], repeat=n):
            if any(scores[k] != SCORES[cfg['scores']][0] for k in range(n) if k not in free):
                continue  # scores of labeled points are irrelevant, except for one value
            lab = tuple(scores[k] if k in free else -np.inf if hash(scores) % 2 else np.inf for k in range(n))
            for subsample in [None] + list(range(1, n + 2)):
                if n == 4 and subsample == 3 and len(free) == 4:
                    continue
                explore_rank(cfg, hist, free, lab, subsample, stats)


def explore_rank(cfg, hist, free, scores, subsample, stats):
    n = cfg['n']
    reached = set()
    what = {'history': hist, 'scores': scores, 'subsample': subsample}

    def execution(ch):
        s = System(n, cfg['index'])
        for op in hist:
            s.apply(op)
        learner = Scored(scores)
        before = s.internal()
        metric_logger.flush()
        metric_logger.log_metric('min_rank', 7.5)  # left by an earlier selection of the same iteration
        with controlled(ch, max_perm=5):
            res = learner.next_points_to_label(s.real, subsample)
        logged = metric_logger.get_metrics().get('min_rank')
        metric_logger.flush()
        stats.state(what, ch.choices)
        if s.internal() != before:
            stats.violation('side-effect', 'selection changed the dataset: {}'.format(what), what)

        rows = {i: k for k, i in enumerate(s.model.index)}
        idx = res.index.tolist()
        if len(idx) != 1 or [tuple(x) for x in res.data.tolist()] != [s.model.rows[i] for i in idx]:
            return stats.violation('shape', 'selected {} {}: {}'.format(idx, res.data, what), what)
        k = rows[idx[0]]
        if k not in free:
            return stats.violation('labeled-point', 'selected point {} was already labeled: {}'.format(k, what), what)

        ranked = [p for call in learner.calls for p in call]
        size = len(free) if subsample is None else min(subsample, len(free))
        if len(set(ranked)) != size or not set(ranked) <= free:
            return stats.violation('subsample', 'ranked points are {}, expected {} of {}: {}'.format(ranked, size, sorted(free), what), what)
        if k not in ranked or scores[k] != min(scores[p] for p in ranked):
            return stats.violation('not-minimal', 'selected point {} has score {}, ranked points were {}: {}'.format(k, scores[k], ranked, what), what)
        if logged != scores[k]:
            return stats.violation('min-rank', 'metric min_rank is {}, selected point has score {}: {}'.format(logged, scores[k], what), what)
        reached.add(k)

    explore(execution, stats)
    size = len(free) if subsample is None else min(subsample, len(free))
    allowed = set()
    for sub in subsets(sorted(free), size, size):
        low = min(scores[p] for p in sub)
        allowed |= {p for p in sub if scores[p] == low}
    if reached != allowed:
        stats.violation('not-all-minimizers', 'reachable selections are {}, expected {}: {}'.format(sorted(reached), sorted(allowed), what), what)
    stats.outcome('{} selectable'.format(len(allowed)))
    stats.sample({'case': what, 'reachable': sorted(reached)})


def explore_random(cfg, hist, free, batch, stats):
    n = cfg['n']
    reached = set()
    what = {'history': hist, 'batch': batch}

    def execution(ch):
        s = System(n, cfg['index'])
        for op in hist:
            s.apply(op)
        learner = RandomSampler(None, batch)
        with controlled(ch, max_perm=5):
            res = learner.next_points_to_label(s.real)
        rows = {i: k for k, i in enumerate(s.model.index)}
        idx = res.index.tolist()
        ks = frozenset(rows[i] for i in idx)
        stats.state('random', what, ch.choices)
        if len(ks) != len(idx) or len(ks) != min(batch, len(free)) or not ks <= free or [tuple(x) for x in res.data.tolist()] != [s.model.rows[i] for i in idx]:
            return stats.violation('random-sampler', 'random sampler selected {}: {}'.format(idx, what), what)
        reached.add(ks)

    explore(execution, stats)
    expected = {frozenset(c) for c in subsets(sorted(free), min(batch, len(free)), min(batch, len(free)))}
    if reached != expected:
        stats.violation('random-sampler-support', 'random sampler can select {}, expected {}: {}'.format(reached, expected, what), what)
