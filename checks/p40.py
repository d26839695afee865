import itertools

import numpy as np
from sklearn.neighbors import KNeighborsClassifier
from sklearn.svm import SVC

from aideme import LabeledSet, PoolBasedExploration
from aideme.active_learning import (
    DualSpaceModel, EntropyReductionLearner, FactorizedDualSpaceModel, FLMUncertaintySampler, KernelVersionSpace, LinearVersionSpace,
    QueryByDisagreement, RandomSampler, RatioMargin, SimpleMargin, SimplifiedSwapLearner, SubspatialSimpleMargin, SubspatialVersionSpace,
    SwapLearner, TwoStepsLearner, UncertaintySampler
)
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import Adam, FISTA
from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
from aideme.initial_sampling import fixed_sampler
from aideme.utils.convergence import max_iter_reached

from checks.p38 import split
from mc.choice import Chooser, explore

PROPERTY = 'P40'
RULE = 'for every exported learner (with several settings): every labeling of a pool of 4 or 5 points that has both classes (and which the learner supports), every ' \
       'choice of a first batch of a menu, batch and subsample sizes, and every outcome of the choices among points: a complete exploration, ' \
       'examined after every iteration, repeated on the same objects, and run with new objects without asking for predictions'
ASSUMPTIONS = ['linear version spaces: linearly separable labels', 'outcomes of draws inside of chains and of starting points follow one fixed pattern', 'pools of at most 5 points']

X = np.array([[0., 0.5], [1., 3.], [2., 1.5], [3.5, 0.], [4., 2.5]])
WHOLE = (2 * X).astype(int)
INDEX = np.array([3, 0, 4, 1, 2])
SMALL = dict(n_samples=2, warmup=1, thin=1)


class Neighbour:
    def fit(self, X, y):
        self.X, self.y = np.array(X), np.array(y, dtype=float)

    def predict_proba(self, X):
        d = np.abs(X[:, None, :] - self.X).sum(axis=-1)
        return (self.y / (1 + d)).sum(axis=1) / (1 / (1 + d)).sum(axis=1)

    def predict(self, X):
        return (self.predict_proba(X) > 0.5).astype(float)


def linear(**kw):
    return LinearFactorizationLearner(optimizer=Adam(step_size=0.1, max_iter=5), penalty_term=SparseGroupLassoPenalty(l1_penalty=1e-3, l2_sqrt_penalty=1e-3), **kw)


def sparse():
    return LinearFactorizationLearner(optimizer=FISTA(step_size=5, max_iter=20), penalty_term=SparseGroupLassoPenalty(l1_penalty=0.1, l2_sqrt_penalty=0.1))


LEARNERS = {  # constructor, kind of labels
    'uncertainty': (lambda: UncertaintySampler(Neighbour()), 'any'),
    'uncertainty-columns': (lambda: UncertaintySampler(KNeighborsClassifier(2)), 'any'),
    'dsm-columns': (lambda: DualSpaceModel(UncertaintySampler(KNeighborsClassifier(2, weights='distance'))), 'any'),
    'random': (lambda: RandomSampler(Neighbour()), 'any'),
    'random-2': (lambda: RandomSampler(Neighbour(), batch_size=2), 'any'),
    'simple-margin': (lambda: SimpleMargin(C=1e3), 'any'),
    'ratio-margin': (lambda: RatioMargin(C=1e3), 'any'),
    'disagreement': (lambda: QueryByDisagreement(SVC(C=1e3), background_sample_size=2, background_sample_weight=1e-3), 'any'),
    'linear-vs': (lambda: LinearVersionSpace(**SMALL), 'separable'),
    'linear-vs-plain': (lambda: LinearVersionSpace(rounding=False, single_chain=False, cache_samples=False, **SMALL), 'separable'),
    'kernel-vs': (lambda: KernelVersionSpace(**SMALL), 'any'),
    'kernel-vs-plain': (lambda: KernelVersionSpace(rounding=False, decompose=False, **SMALL), 'any'),
    'kernel-vs-linear': (lambda: KernelVersionSpace(kernel='linear', **SMALL), 'separable'),
    'entropy': (lambda: EntropyReductionLearner(data_sample_size=3, rounding_cache=False, **SMALL), 'any'),
    'dsm': (lambda: DualSpaceModel(SimpleMargin(C=1e3)), 'any'),
    'dsm-positive': (lambda: DualSpaceModel(KernelVersionSpace(rounding_cache=False, **SMALL), mode='positive'), 'any'),
    'factorized-dsm': (lambda: FactorizedDualSpaceModel(SimpleMargin(C=1e3), partition=[[0], [1]]), 'partial'),
    'factorized-dsm-modes': (lambda: FactorizedDualSpaceModel(UncertaintySampler(Neighbour()), partition=[[1], [0, 1]], mode=['positive', 'negative']), 'partial'),
    'subspace-vs': (lambda: SubspatialVersionSpace(partition=[[0], [1]], **SMALL), 'partial'),
    'subspace-vs-product': (lambda: SubspatialVersionSpace(partition=[[0, 1], [1]], loss='PRODUCT', rounding=False, decompose=True, **SMALL), 'partial'),
    'subspace-margin': (lambda: SubspatialSimpleMargin(partition=[[0], [1]], C=1e3), 'partial'),
    'swap': (lambda: SwapLearner(SimpleMargin(C=1e3), linear(), num_subspaces=2, swap_iter=1), 'any'),
    'swap-fact': (lambda: SwapLearner(SimpleMargin(C=1e3), linear(), linear(), num_subspaces=2, swap_iter=1, prune=False, retries=2,
                                      fact_model=FactorizedDualSpaceModel(UncertaintySampler(Neighbour())), compute_fact_every=1, fact_repeat=1, fact_max_iter=5), 'any'),
    'swap-dsm': (lambda: SwapLearner(SimpleMargin(C=1e3), linear(), num_subspaces=2, swap_iter=1, prune=False, user_fact=[[0, 1]],
                                     fact_model=FactorizedDualSpaceModel(UncertaintySampler(Neighbour())), compute_fact_every=1, fact_repeat=1, fact_max_iter=5), 'any'),
    'swap-vs': (lambda: SwapLearner(SimpleMargin(C=1e3), linear(), num_subspaces=2, swap_iter=1, user_fact=[[1], [0]],
                                    fact_model=SubspatialVersionSpace(rounding=False, decompose=True, loss='PRODUCT', **SMALL), compute_fact_every=1, fact_repeat=1, fact_max_iter=5), 'partial'),
    'swap-margin': (lambda: SwapLearner(SimpleMargin(C=1e3), linear(), num_subspaces=2, swap_iter=1, prune=False, user_fact=[[0], [1]],
                                        fact_model=SubspatialSimpleMargin(C=1e3), compute_fact_every=1, fact_repeat=1, fact_max_iter=5), 'partial'),
    'swap-empty': (lambda: SwapLearner(SimpleMargin(C=1e3), LinearFactorizationLearner(optimizer=Adam(step_size=0.1, max_iter=5)), sparse(), num_subspaces=1, swap_iter=1,
                                       user_fact=[[0, 1]], fact_model=FactorizedDualSpaceModel(UncertaintySampler(Neighbour())), compute_fact_every=1, fact_repeat=1, fact_max_iter=5), 'any'),
    'swap-simple': (lambda: SimplifiedSwapLearner(swap_iter=1, use_vs=False, num_subspaces=2, prune=False, train_sample_size=5, refine_max_iter=5), 'any'),
    'flm': (lambda: FLMUncertaintySampler(max_iter=5, num_subspaces=2), 'any'),
    'flm-penalty': (lambda: FLMUncertaintySampler(max_iter=5, num_subspaces=2, penalty=0.01, penalty_iter=2, log=True), 'any'),
    'two-steps': (lambda: TwoStepsLearner(UncertaintySampler(Neighbour()), UncertaintySampler(Neighbour()), switch_iter=9, text_column_start=1), 'partial'),
}
NO_PROBA = ('disagreement', 'subspace-margin', 'swap-margin')
HANDOVER = ('swap-dsm', 'swap-vs', 'swap-margin', 'swap-empty')
ONE_CLASS = ('subspace-margin', 'swap-margin')
NO_RANK = ('random', 'random-2', 'two-steps')
SLOW = ('kernel-vs-linear', 'linear-vs', 'linear-vs-plain', 'kernel-vs-plain', 'disagreement', 'ratio-margin', 'kernel-vs', 'entropy', 'dsm-positive', 'subspace-vs', 'subspace-vs-product', 'swap-fact', 'swap', 'swap-dsm', 'swap-vs', 'swap-margin', 'swap-empty', 'swap-simple')


def configs(tier):
    big = tier == 'thorough'
    res = []
    for name in LEARNERS:
        for sub in (None, 2):
            for first in range(3):
                parts = 4 if big or name in SLOW else 1
                res += [{'learner': name, 'subsample': sub, 'first': first, 'both': both, 'n': 5 if big or name in HANDOVER else 4, 'part': [p, parts], 'big': big}
                        for p in range(parts) for both in ((True, False) if name == 'subspace-margin' else (False,))]
        res.append({'learner': name, 'subsample': None, 'first': 1, 'both': name == 'subspace-margin', 'n': 4, 'part': [0, 1 if big else 2], 'big': big, 'whole': 'int'})
    return res


def labelings(kind, n):
    """ (labels, partial labels) """
    if kind.startswith('partial'):
        for partial in itertools.product(((0, 0), (0, 1), (1, 0), (1, 1)), repeat=n):
            yield [min(p) for p in partial], [list(p) for p in partial]
        return
    for y in itertools.product((0, 1), repeat=n):
        if kind == 'separable' and not separable(X[:n], y):
            continue
        yield list(y), None


def separable(P, y):
    for w in itertools.product(range(-8, 9), repeat=2):
        v = P @ np.array(w)
        pos, neg = [a for a, b in zip(v, y) if b], [a for a, b in zip(v, y) if not b]
        if not pos or not neg or min(pos) > max(neg):
            return True
    return False


def first_batches(cfg, y, partial):
    """ first batch of the user: contains both classes (and both partial labels, if required) """
    n, found = cfg['n'], []
    for size in (2, 3, 4):
        for b in itertools.permutations(range(n), size):
            if len(set(y[i] for i in b)) < 2:
                continue
            if cfg['both'] and any(len(set(partial[i][s] for i in b)) < 2 for s in (0, 1)):
                continue
            found.append(b)
        if found:
            break
    return found[cfg['first'] * len(found) // 3:][:1] if cfg['first'] < len(found) else []


class Observer:
    def __init__(self, cfg, labels, partial, stats, case, active):
        self.cfg, self.labels, self.partial, self.stats, self.case, self.active = cfg, labels, partial, stats, case, active

    def bad(self, key, msg):
        self.stats.violation(key, '{}: {}'.format(msg, self.case), self.case)

    def __call__(self, data, learner):
        if not self.active:
            return None
        n, name = self.cfg['n'], self.cfg['learner']
        self.stats.step()
        Q = pool(self.cfg).copy()
        rows = data.data.tolist()
        labels = np.array(learner.predict(Q))
        res = {'predictions': labels.tolist()}
        if labels.shape != (n,) or not set(labels.tolist()) <= {0., 1.}:
            self.bad('predictions', 'predictions are {}'.format(labels))
        if np.array(learner.predict(Q)).tolist() != labels.tolist():
            self.bad('predictions-repeated', 'predictions change: {}, {}'.format(labels, learner.predict(Q)))
        if name not in NO_PROBA:
            p = np.array(learner.predict_proba(Q))
            res['probas'] = p.tolist()
            if p.shape != (n,) or not np.all((p >= 0) & (p <= 1)):
                self.bad('probabilities', 'probabilities are {}'.format(p))
            if np.array(learner.predict_proba(Q)).tolist() != p.tolist():
                self.bad('probabilities-repeated', 'probabilities change: {}, {}'.format(p, learner.predict_proba(Q)))
        if name not in NO_RANK and data.unlabeled_size > 0:
            pts = data.unlabeled.data.copy()
            r = np.array(learner.rank(pts))
            if r.shape != (len(pts),) or np.any(np.isnan(r)):
                self.bad('ranks', 'ranks are {}'.format(r))
            again = np.array(learner.rank(pts))
            if again.tolist() != r.tolist():
                self.bad('ranks-repeated', 'ranks change: {}, {}'.format(r, again))
            alone = [float(np.ravel(learner.rank(pts[i:i + 1]))[0]) for i in range(len(pts))]
            if name != 'entropy' and not np.allclose(alone, r, atol=1e-9):
                self.bad('ranks-alone', 'ranks are {} together and {} alone'.format(r, alone))
            if Q.tolist() != pool(self.cfg).tolist() or pts.tolist() != data.unlabeled.data.tolist():
                self.bad('arguments', 'points given to the learner were modified')
        if data.data.tolist() != rows:
            self.bad('dataset', 'dataset was changed by predictions')
        user = dict(zip(index_of(n), self.labels))
        for i, lb in zip(data.labeled_set.index.tolist(), data.labeled_set.labels.tolist()):
            if user[i] != lb:
                self.bad('labels', 'label of {} is {}'.format(i, lb))
        predicted = data.predict_user_labels(learner)
        if sorted(predicted.index.tolist()) != sorted(user) or any(user[i] != lb for i, lb in zip(predicted.index.tolist(), predicted.labels.tolist())
                                                                   if i in data.labeled_set.index.tolist()):
            self.bad('user-labels', 'predicted labels of the user are {}'.format(predicted.asdict()))
        return res


def pool(cfg):
    return (WHOLE if cfg.get('whole') == 'int' else 2 * X if cfg.get('whole') else X)[:cfg['n']]


def index_of(n):
    return [i for i in INDEX.tolist() if i < n]


def run(cfg, stats):
    n = cfg['n']
    make, kind = LEARNERS[cfg['learner']]
    index = np.array(index_of(n))
    slow = cfg['learner'] in SLOW
    case, count = {'config': cfg}, 0
    for y, partial in labelings(kind, n):
        if len(set(y)) < 2:
            continue
        count += 1
        if count % cfg['part'][1] != cfg['part'][0]:
            continue
        if not cfg['big'] and partial is not None and (count // cfg['part'][1] + cfg['first']) % (15 if slow else 6):
            continue
        for batch in first_batches(cfg, y, partial):
            case = {'labels': y, 'partial': partial, 'first': batch, 'config': cfg}

            def session(objects, seen):
                expl, data, ls, learner, observer = objects
                observer.active = seen
                runs = expl.run(data, ls, learner, copy=True)
                res = []
                for run in runs:
                    for m in run:
                        res.append(m)
                        if len(res) > n + 1:
                            raise AssertionError('more iterations than points')
                return res

            def objects(cfg=cfg):
                ls = LabeledSet(np.array(y), None if partial is None else np.array(partial), index=index.copy())
                observer = Observer(cfg, y, partial, stats, case, True)
                expl = PoolBasedExploration(initial_sampler=fixed_sampler([index[i] for i in batch]), subsampling=cfg['subsample'], callback=[observer],
                                            convergence_criteria=[max_iter_reached(n + 5)])
                return expl, pool(cfg).copy(), ls, make(), observer

            def execution(ch):
                obj = objects()
                try:
                    with split(ch, 'sample', names=('choice',)):
                        first = session(obj, True)
                except AttributeError as e:
                    if cfg['learner'] == 'two-steps' and 'select_cols' in str(e):
                        stats.violation('two-steps-unusable', 'no exploration is possible with this learner: {} {}'.format(e, case), case)
                        return
                    raise
                except ValueError as e:
                    if cfg['learner'] in ONE_CLASS and 'number of classes has to be greater than one' in str(e):
                        stats.violation('one-class-subspace', 'margin learner fails once a subspace has labels of one class only: {} {}'.format(e, case), case)
                        stats.outcome('one class')
                        return
                    raise
                asked = [i for m in first for i in np.ravel(m['labeled_indexes'] if 'labeled_indexes' in m else m['index']).tolist()]
                if len(set(asked)) != len(asked) or not set(asked) <= set(index.tolist()):
                    return stats.violation('asked', 'points asked to the user: {}: {}'.format(asked, case), case)
                if sorted(asked) != sorted(index.tolist()):
                    return stats.violation('incomplete', 'exploration ended after {}: {}'.format(asked, case), case)
                stats.state(case, ch.choices)
                stats.outcome('{} iterations'.format(len(first)))
                with split(Chooser(ch.choices), 'sample', names=('choice',)):
                    second = session(obj, True)
                if strip(second) != strip(first):
                    return stats.violation('repeated', 'second run differs from the first one: {} {}: {}'.format(strip(second), strip(first), case), case)
                if cfg.get('whole'):
                    with split(Chooser(ch.choices), 'sample', names=('choice',)):
                        real = session(objects(dict(cfg, whole='float')), True)
                    if not alike(strip(real), strip(first)):
                        return stats.violation('integers', 'run over the same data as floats differs: {} {}: {}'.format(strip(real), strip(first), case), case)
                with split(Chooser(ch.choices), 'sample', names=('choice',)):
                    silent = session(objects(), False)
                if [strip([m], ('predictions', 'probas')) for m in silent] != [strip([m], ('predictions', 'probas')) for m in first]:
                    return stats.violation('predictions-interfere', 'run without asking for predictions differs: {} {}: {}'.format(strip(silent), strip(first), case), case)

            explore(execution, stats, limit=None if cfg['big'] else 8 if slow else 32)
    stats.sample(case)


def alike(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(alike, a, b))
    return a == b or abs(a - b) < 1e-6


def strip(metrics, more=()):
    keep = ('labeled_indexes', 'index', 'labels', 'predictions', 'probas', 'final_labels')
    return [{k: np.array(v).tolist() for k, v in m.items() if k in keep and k not in more} for m in metrics]
