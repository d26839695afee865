"""
Complete pool-based explorations with a recording learner, all randomness decided by a chooser.
"""
import numpy as np

from aideme import LabeledSet, PoolBasedExploration
from aideme.active_learning import ActiveLearner
from aideme.initial_sampling import fixed_sampler, random_sampler, stratified_sampler
from aideme.utils.convergence import max_iter_reached, metric_reached_threshold
from aideme.utils.noise import random_noise_injector
from checks.datasets import INDEXES, make_data
from mc.choice import controlled


class RecordingLearner(ActiveLearner):
    """ ranks points by a given function of their first coordinate; predicts the label of the closest labeled point """
    def __init__(self, rank_fn='ties'):
        self.rank_fn = rank_fn
        self.log = []
        self.rank_args = []
        self.X = self.y = None

    def clear(self):
        self.log.append(('clear',))
        self.X = self.y = None

    def fit(self, X, y):
        self.log.append(('fit', X.tolist(), np.array(y).tolist()))
        self.X, self.y = X.copy(), np.array(y)

    def predict(self, X):
        if self.X is None or len(self.X) == 0:
            return np.zeros(len(X))
        d = np.abs(X[:, :1] - self.X[:, 0])
        return self.y[d.argmin(axis=1)].astype(float)

    def predict_proba(self, X):
        return 0.25 + 0.5 * self.predict(X)

    def rank(self, X):
        self.rank_args.append([tuple(x) for x in X.tolist()])
        return rank_values(self.rank_fn, X)


def rank_values(kind, X):
    v = X[:, 0]
    if kind == 'ties':
        return np.zeros(len(X))
    if kind == 'down':
        return -v
    if kind == 'up':
        return v.copy()
    if kind == 'parity':
        return np.asarray(v, dtype=int) % 2 * 1.0
    if kind == 'inf':
        return np.where(np.asarray(v, dtype=int) % 2 == 0, np.inf, 1.0)
    raise ValueError(kind)


def make_sampler(spec, ls, index):
    if spec is None:
        return None
    kind = spec[0]
    if kind == 'fixed':
        return fixed_sampler([index[i] for i in spec[1]])
    if kind == 'random':
        return random_sampler(spec[1])
    if kind == 'strat':
        if tuple(spec[1:]) == (1, 1):
            return stratified_sampler(ls)
        return stratified_sampler(ls, pos=spec[1], neg=spec[2])
    raise ValueError(spec)


class Criterion:
    """ user-defined criterion: true from the k-th iteration on """
    def __init__(self, k):
        self.k, self.calls = k, 0

    def __call__(self, manager, metrics):
        self.calls += 1
        return manager.iters >= self.k


class StateCallback:
    """ callback recording what it was given """
    def __init__(self, name):
        self.name, self.seen = name, []

    def __call__(self, dataset, learner):
        self.seen.append((dataset.labeled_size, len([x for x in learner.log if x[0] == 'fit'])))
        return {self.name: dataset.labeled_size} if self.name else None


class Noise:
    """ user-defined noise injector: deterministic, records what it is given """
    def __init__(self, kind):
        self.kind, self.calls = kind, []

    def flips(self, iteration, index0, labels):
        """ which ones of given labels are flipped at this iteration """
        if self.kind == 'all':
            return [True] * len(labels)
        if self.kind == 'odd':
            return [iteration % 2 == 1] * len(labels)
        if self.kind == 'first':
            return [k == 0 for k in range(len(labels))]
        return [lb == 1 for lb in labels]  # 'positive'

    def __call__(self, iteration, ls):
        index, labels, partial = ls.index.tolist(), ls.labels.tolist(), ls.partial.tolist()
        self.calls.append((iteration, index, labels, partial))
        noisy, noisy_partial = self.answer(iteration, index, labels, partial)
        return LabeledSet(np.array(noisy), np.array(noisy_partial) if len(noisy_partial[0]) > 1 else None, np.array(ls.index))

    def answer(self, iteration, index, labels, partial):
        flips = self.flips(iteration, index, labels)
        noisy = [1 - lb if f else lb for lb, f in zip(labels, flips)]
        if len(partial[0]) == 1:
            return noisy, [[lb] for lb in noisy]
        return noisy, [p if not f else [lb] * len(p) for lb, f, p in zip(noisy, flips, partial)]


class Record:
    pass


def make_labels(cfg):
    """ labels and partial labels of all points """
    n = cfg['n']
    labels = [(cfg['labels'] >> i) & 1 for i in range(n)]
    if cfg.get('partial'):
        partial = [[lb, 1] if (i % 2) else [1, lb] for i, lb in enumerate(labels)]
        return labels, partial
    return labels, None


def run_pool(cfg, chooser, repeat=1, copy=None, return_generator=True):
    """
    cfg: n, index, labels (bit mask), partial, sampler, rank, subsampling, skip, criteria, callbacks, noise, copy, limit
    """
    n = cfg['n']
    make = INDEXES[cfg.get('index', 'default')]
    index = np.arange(n) if make is None else make(n)
    labels, partial = make_labels(cfg)

    rec = Record()
    rec.n, rec.labels, rec.partial = n, labels, partial
    rec.index0, rec.data0 = index.tolist(), make_data(n)
    rec.user_data = make_data(n)
    rec.ls = LabeledSet(np.array(labels), partial if partial is None else np.array(partial), index=index.copy())
    rec.learner = RecordingLearner(cfg.get('rank', 'ties'))
    rec.sampler_spec = cfg.get('sampler')

    rec.callbacks = [StateCallback('cb'), StateCallback(None)] if cfg.get('callbacks', True) else []
    rec.criteria = []
    for c in cfg.get('criteria', []):
        if c[0] == 'max':
            rec.criteria.append(max_iter_reached(c[1]))
        elif c[0] == 'iter':
            rec.criteria.append(Criterion(c[1]))
        elif c[0] == 'thr':
            rec.criteria.append(metric_reached_threshold('cb', c[1]))
        elif c[0] == 'phase':
            rec.criteria.append(lambda manager, metrics: metrics.get('phase') == 'exploration')
        elif c[0] == 'positives':
            rec.criteria.append(lambda manager, metrics, k=c[1]: sum(metrics.get('labels', ())) >= k)
    rec.callbacks0, rec.criteria0 = list(rec.callbacks), list(rec.criteria)

    noise = cfg.get('noise')
    rec.noise = injector = None if noise is None else Noise(noise) if isinstance(noise, str) else random_noise_injector(noise[0], noise[1])

    # arguments are left to their documented defaults when the configuration does not speak of them
    kwargs = {'callback': rec.callbacks, 'convergence_criteria': rec.criteria}
    if cfg.get('skip') is not None:
        kwargs['callback_skip'] = cfg['skip']
    if cfg.get('subsampling') is not None:
        kwargs['subsampling'] = cfg['subsampling']
    if rec.sampler_spec is not None:
        kwargs['initial_sampler'] = make_sampler(rec.sampler_spec, rec.ls, rec.index0)
    if injector is not None:
        kwargs['noise_injector'] = injector
    expl = PoolBasedExploration(**kwargs)
    rec.runs = []
    with controlled(chooser) as rnd:
        runs = expl.run(rec.user_data, rec.ls, rec.learner, repeat=repeat, copy=cfg.get('copy', True), return_generator=return_generator)
        for run in runs:
            metrics = []
            for m in run:
                metrics.append(m)
                if len(metrics) > n + 1:
                    raise AssertionError('more iterations than points')
            rec.runs.append(metrics)
    rec.expl = expl
    return rec
