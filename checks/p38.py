import itertools
import math
import sys

import numpy as np

from aideme import LabeledSet, PartitionedDataset
from aideme.active_learning import EntropyReductionLearner

from mc.choice import controlled, explore
from checks.p26 import generic_long

PROPERTY = 'P38'
RULE = 'every labeling of training points of a grid, for every kernel and sampler setting of the menu, every size of the data sample and all outcomes of the ' \
       'draws (data samples; directions and steps of a menu), over sessions with further labels, clear and other datasets: ranks of all points, asked together ' \
       'and in parts, are compared with the definition applied to the predictions of the sampled classifiers; a fixed fraction of the labelings of two ' \
       'or more points, first 128 or 256 outcomes of each chain'
ASSUMPTIONS = ['at most 5 points', 'directions come from a menu of 2 (alternating in quick), steps from 2 fractions of the chord', 'all random draws go through numpy.random']

POINTS = [(0., 0.), (1., 0.), (0., 2.), (1., 1.), (-1., 1.)]
SETTINGS = [
    {'kernel': 'rbf', 'gamma': 0.5, 'single_chain': True},
    {'kernel': 'rbf', 'gamma': 2., 'single_chain': False, 'rounding': False, 'decompose': True},
    {'kernel': 'rbf', 'gamma': 0.1, 'single_chain': True, 'rounding': False, 'decompose': False},
    {'kernel': 'poly', 'degree': 3, 'coef0': 1., 'single_chain': True, 'rounding_cache': False},
]


def configs(tier):
    big = tier == 'thorough'
    res = []
    for s in range(len(SETTINGS)):
        for n in (1, 2, 3) if big else (1, 2):
            for size in (None, 1, 3, 4, 10):
                for samples in (2, 4) if size in (None, 3) else (4,):
                    res += [{'mode': 'ranks', 'setting': s, 'n': n, 'size': size, 'samples': samples, 'part': [k, p], 'big': big} for p in (1 if n == 1 else 5 if big else 3,) for k in range(p)]
        for size in (None, 2):
            res += [{'mode': 'session', 'setting': s, 'size': size, 'samples': 3, 'part': [k, 4], 'big': big} for k in range(4)]
    res.append({'mode': 'arguments'})
    return res


def run(cfg, stats):
    {'ranks': run_ranks, 'session': run_session, 'arguments': run_arguments}[cfg['mode']](cfg, stats)


def entropy(p):
    return sum(-q * math.log(q) for q in (p, 1 - p) if q > 0)


def definition(H, S):
    """ H: predictions of the classifiers (rows) for the points asked, S: for the data sample. :return: ranks """
    m, n = len(H), len(H[0])
    half = [abs(sum(row[i] for row in H) / m - 0.5) for i in range(n)]
    best = min(half)
    if best == 0.5:
        return [0.] * n
    res = []
    for i in range(n):
        if half[i] != best:
            res.append(math.inf)
            continue
        total = 0.
        for label in (0, 1):
            keep = [row for h, row in zip(H, S) if h[i] == label]
            mean = sum(entropy(sum(row[j] for row in keep) / len(keep)) for j in range(len(S[0]))) / len(S[0])
            total += mean * len(keep) / m
        res.append(total)
    return res


def agree(a, b):
    return len(a) == len(b) and all((math.isinf(x) and math.isinf(y) and x > 0 and y > 0) or abs(x - y) < 1e-9 for x, y in zip(a, b))


def predictions(model, X):
    H = np.array(model.predict_all(np.array(X, dtype=float)))
    return H.astype(float).tolist()


def create(cfg, **more):
    return EntropyReductionLearner(data_sample_size=cfg['size'], n_samples=cfg['samples'], warmup=1, thin=1, **SETTINGS[cfg['setting']], **more)


def examine(model, cfg, data_points, case, stats, samples=None):
    """ :return: the data samples (tuples of rows) which explain the ranks """
    X = np.array(data_points)
    H = predictions(model, X)
    if len(H) != cfg['samples'] or not set(v for row in H for v in row) <= {0., 1.}:
        stats.violation('predictions', 'predictions of the classifiers are {}: {}'.format(H, case), case)
        return []
    proba = [sum(col) / len(H) for col in zip(*H)]
    if not agree(model.predict_proba(X).tolist(), proba) or model.predict(X).tolist() != [float(p > 0.5) for p in proba]:
        stats.violation('probabilities', 'probabilities are {}, shares of votes {}: {}'.format(model.predict_proba(X), proba, case), case)
        return []
    n = len(data_points)
    size = n if cfg['size'] is None else min(cfg['size'], n)
    candidates = list(itertools.combinations(range(n), size)) if samples is None else list(samples)
    groups = [list(range(n)), [0], [n - 1], list(range(1, n)), [0, 0] + list(range(n))[::-2]]
    for g in groups:
        stats.step()
        got = np.array(model.rank(X[g].copy())).tolist()
        again = np.array(model.rank(X[g].copy())).tolist()
        if not agree(got, again):
            stats.violation('repeat', 'ranks of points {} are {} and then {}: {}'.format(g, got, again, case), case)
        left = [c for c in candidates if agree(got, definition([[row[i] for i in g] for row in H], [[row[j] for j in c] for row in H]))]
        if not left:
            stats.violation('rank', 'ranks of points {} are {}, expected (for some data sample) {}: {}'.format(
                g, got, [definition([[row[i] for i in g] for row in H], [[row[j] for j in c] for row in H]) for c in candidates[:3]], case), case)
            return []
        candidates = left
    stats.outcome('no cut' if min(abs(p - 0.5) for p in proba) == 0.5 else '{} minimizers'.format(sum(abs(p - 0.5) == min(abs(q - 0.5) for q in proba) for p in proba)))
    return candidates


def dataset(points):
    return PartitionedDataset(np.array(points), None, copy=True)


def chain(ch, big):
    draws = itertools.count()
    if big:
        return controlled(ch, directions=generic_long, fractions=(0.1, 0.9), max_perm=0)
    return controlled(ch, directions=lambda d: generic_long(d)[:1] if next(draws) % 2 else generic_long(d)[1:], fractions=(0.1, 0.9), max_perm=0)


def run_ranks(cfg, stats):
    n, count = cfg['n'], 0
    for chosen in itertools.permutations(range(len(POINTS)), n):
        for labels in itertools.product((0., 1.), repeat=n):
            count += 1
            if count % cfg['part'][1] != cfg['part'][0]:
                continue
            if n > 1 and (count // cfg['part'][1] + cfg['setting']) % (cfg['big'] and {2: 4, 3: 48}[n] or (4 if cfg['samples'] == 2 else 6)):
                continue
            case = {'points': chosen, 'labels': labels, 'config': cfg}
            explained = {}

            # data sample enumerated with the first outcomes of the chain, outcomes of the chain with the first data sample
            for free in ('sample', 'chain') if cfg['big'] or cfg['size'] is None else ('sample',):
                def execution(ch):
                    data = dataset(POINTS)
                    data.move_to_labeled(LabeledSet(np.array(labels), index=np.array(chosen)))
                    model = create(cfg)
                    with split(ch, free, cfg['big']):
                        model.fit_data(data)
                    stats.state(case, free, ch.choices)
                    got = examine(model, cfg, POINTS, case, stats)
                    if free == 'sample':
                        explained[tuple(ch.choices)] = set(got)

                explore(execution, stats, limit=(128 if n > 1 else 256) if free == 'chain' else None)
            sizes = min(cfg['size'] or len(POINTS), len(POINTS))
            total = set(itertools.combinations(range(len(POINTS)), sizes))
            # with k draws enumerated completely each sample must explain some execution, which is a necessary condition
            missing = total - set().union(*explained.values()) if explained else set()
            stats.check(not missing, 'unreachable', 'data samples {} are never used: {}'.format(sorted(missing)[:3], case), case)
            runs, subsets = len(explained), len(total)
            stats.check(runs >= subsets, 'unreachable', 'only {} data samples, {} subsets: {}'.format(runs, subsets, case), case)
    stats.sample(case)


class split:
    """ control where either the choice among data points or the chain is free, the other one takes its first outcome """
    def __init__(self, ch, free, big=False, names=('choice', 'permutation', 'shuffle', 'randint')):
        self.ch, self.free, self.big, self.names = ch, free, big, names

    def __enter__(self):
        self.ctx = chain(_Part(self.ch, self.free), self.big)
        self.rnd = self.ctx.__enter__()
        part = self.rnd.ch
        for name in self.names:  # draws of data points
            setattr(np.random, name, self.inside(part, getattr(self.rnd, name)))
            setattr(self.rnd, name, getattr(np.random, name))
        return self.rnd

    def inside(self, part, original):
        def draw(*args, **kwargs):
            if 'scipy' in sys._getframe(1).f_globals.get('__name__', ''):  # pivoting of linear programs
                return original(*args, **kwargs)
            saved, part.inside, self.rnd.max_perm = (part.inside, self.rnd.max_perm), True, 5
            try:
                return original(*args, **kwargs)
            finally:
                part.inside, self.rnd.max_perm = saved
        return draw

    def __exit__(self, *args):
        return self.ctx.__exit__(*args)


class _Part:
    def __init__(self, ch, free):
        self.ch, self.free, self.inside, self.draws = ch, free, False, 0

    @property
    def trace(self):
        return self.ch.trace

    def choose(self, n):
        if (self.free == 'sample') == self.inside:
            return self.ch.choose(n)
        self.draws += 1
        return self.draws % n if not self.inside else 0

    def pick(self, options):
        options = list(options)
        return options[self.choose(len(options))]


def run_session(cfg, stats):
    count = 0
    for order in itertools.permutations(range(len(POINTS)), 4):
        for labels in itertools.product((0., 1.), repeat=3):
            count += 1
            if count % cfg['part'][1] != cfg['part'][0] or (count // 4) % (6 if cfg['big'] else 24):
                continue
            case = {'order': order, 'labels': labels, 'config': cfg}

            def execution(ch):
                model = create(cfg)
                for session in range(2):
                    data = dataset(POINTS if session == 0 else [(2 * y, 1.5 - x) for x, y in POINTS[::-1]] + [(0., -1.), (0.5, 3.)])
                    pts = data.data.tolist()
                    for k in range(2 if session == 0 else 1):
                        batch = order[:2] if k == 0 else order[2:3]
                        lb = labels[:2] if k == 0 else labels[2:3]
                        data.move_to_labeled(LabeledSet(np.array(lb if session == 0 else [1 - v for v in lb]), index=np.array(batch)))
                        with split(ch if k == 0 and session == count // 192 % 2 else _Fixed(), 'chain', cfg['big']):
                            model.fit_data(data)
                        stats.step()
                        if not examine(model, cfg, pts, dict(case, session=session, labeled=2 + k), stats):
                            return
                        stats.state(case, session, k, ch.choices)
                    if count // 96 % 2 or cfg['setting'] == 0:  # a learner without cached ellipsoid may be trained on another dataset directly
                        model.clear()

            explore(execution, stats, limit=128 if cfg['big'] else 64)
    stats.sample(case)


class _Fixed:
    trace = ()

    def choose(self, n):
        return 0

    def pick(self, options):
        return list(options)[0]


def run_arguments(cfg, stats):
    for size, ok in ((None, True), (1, True), (7, True), (0, False), (-2, False), (1.5, False)):
        try:
            EntropyReductionLearner(data_sample_size=size)
            accepted = True
        except (ValueError, TypeError, AssertionError):
            accepted = False
        stats.step()
        stats.executions += 1
        stats.state(size)
        stats.check(accepted == ok, 'arguments', 'data_sample_size={} accepted={}'.format(size, accepted), {'size': size})
    stats.sample({'sizes': 6})
