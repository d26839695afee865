import itertools

import numpy as np

from aideme.active_learning import ActiveLearner
from aideme.active_learning.dsm import DualSpaceModel, FactorizedDualSpaceModel
from aideme.active_learning.dsm.polytope import CategoricalPolytope, FlippedPolytope, MultiSetPolytope, PersistentPolytope, Polytope
from aideme.explore import LabeledSet, PartitionedDataset
from checks.datasets import INDEXES
from mc.choice import controlled, explore

PROPERTY = 'P21'
RULE = 'for every labeling of pools of 4 to 6 points (consistent with the convexity assumption or not), initial batch, mode, sampling ' \
       'probability and subsample size of the menu: all outcomes of the random draws of a complete exploration are enumerated; after every ' \
       'training and every proposal, the inferred points, the training data of the active learner, its proposals and all predictions are ' \
       'compared with new polytopes, one per subspace, which received all labels at once (combined by an independent rule), also in a second session after clearing'
ASSUMPTIONS = ['active learner is a recording stub, which ranks points it was trained on last, or ignores its training', 'polytope models are decided by P13 to P19',
               'all random draws go through numpy.random']

POOLS = {
    'line4': [(0,), (2,), (4,), (6,)],
    'line5': [(0,), (2,), (4,), (6,), (8,)],
    'square5': [(0, 0), (4, 0), (0, 4), (4, 4), (2, 2)],
    'tri6': [(0, 0), (6, 0), (0, 6), (2, 2), (1, 4), (6, 6)],
    'prod4': [(0, 0), (2, 2), (4, 0), (2, 4)],
    'prod5': [(0, 0), (2, 2), (4, 0), (2, 4), (4, 4)],
    'cat4': [(0, 1, 0), (2, 0, 1), (4, 1, 0), (2, 1, 0)],
}


class Stub(ActiveLearner):
    def __init__(self, order):
        self.order = order
        self.train = []
        self.cleared = 0
        self.ranked = 0

    def clear(self):
        self.train = []
        self.cleared += 1

    def fit(self, X, y):
        self.train = [(tuple(x), lb) for x, lb in zip(X.tolist(), np.array(y).tolist())]

    def predict(self, X):
        return np.array([float(int(sum(x)) // 2 % 2) for x in X])

    def predict_proba(self, X):
        return np.array([0.25 + 0.125 * (int(sum(x)) % 4) for x in X])

    def score(self, x):
        known = {p for p, _ in self.train} if self.order != 'stubborn' else ()
        w = 11 * x[0] + sum(k * v for k, v in enumerate(x[1:], 3))
        return (100. if tuple(x) in known else 0.) + (-w if self.order == 'down' else w)

    def rank(self, X):
        self.ranked += 1
        if self.ranked > 100:
            raise AssertionError('endless selection of the same points')
        return np.array([self.score(tuple(x)) for x in X.tolist()])


class Draws:
    """ uniform draws: both sides of the sampling probability for the first ones, then a low one """
    def __init__(self, high):
        self.left = high

    def __iter__(self):
        if self.left <= 0:
            return iter([0.0])
        self.left -= 1
        return iter([0.0, 0.999999])


def configs(tier):
    big = tier == 'thorough'
    res = []
    for mode in ('persist', 'positive', 'negative'):
        for order in ('up', 'down'):
            for p in (0.5, 0, 1):
                res.append({'pool': 'line4', 'mode': mode, 'order': order, 'p': p, 'sub': None})
                if big or (order == 'up' and p == 0.5) or mode == 'persist':
                    res.append({'pool': 'line5', 'mode': mode, 'order': order, 'p': p, 'sub': None})
                if p and (big or mode == 'persist'):
                    res.append({'pool': 'line4', 'mode': mode, 'order': order, 'p': p, 'sub': 2})
                if big or mode == 'persist' or order == 'up':
                    res.append({'pool': 'square5', 'mode': mode, 'order': order, 'p': p, 'sub': None, 'all': big})
                if big:
                    res.append({'pool': 'tri6', 'mode': mode, 'order': order, 'p': p, 'sub': None})
                    if p:
                        res.append({'pool': 'square5', 'mode': mode, 'order': order, 'p': p, 'sub': 3})
    for p in (0.5, 0):
        res.append({'pool': 'line5', 'mode': 'persist', 'order': 'stubborn', 'p': p, 'sub': None})
        res.append({'pool': 'line4', 'mode': 'persist', 'order': 'stubborn', 'p': p, 'sub': 2})
        if big:
            res.append({'pool': 'line5', 'mode': 'persist', 'order': 'stubborn', 'p': p, 'sub': 2})
            res.append({'pool': 'square5', 'mode': 'persist', 'order': 'stubborn', 'p': p, 'sub': None})
        for part in range(4):
            res.append({'pool': 'prod4', 'mode': 'persist', 'order': 'stubborn', 'p': p, 'sub': None, 'partition': [[0], [1]], 'part': [part, 4]})
    for mode in ('persist', ['positive', 'negative'], ['negative', 'persist']):
        for order in ('up', 'down') if big else ('up',):
            for p in (0.5, 0, 1):
                for part in range(4):
                    res.append({'pool': 'prod4', 'mode': mode, 'order': order, 'p': p, 'sub': None, 'partition': [[0], [1]], 'part': [part, 4]})
                if big:
                    for part in range(8):
                        res.append({'pool': 'prod5', 'mode': mode, 'order': order, 'p': p, 'sub': None, 'partition': [[0], [1]], 'part': [part, 8]})
    for p in (0.5, 1):
        for part in range(4):
            for modes in (['persist', 'categorical'], ['negative', 'multiset'], ['numerical', 'multiset']):
                if big or p == 0.5 or modes[0] != 'negative':
                    res.append({'pool': 'cat4', 'mode': modes, 'order': 'up', 'p': p, 'sub': None, 'partition': [[0], [1, 2]], 'part': [part, 4]})
    return res


def labelings(cfg):
    n = len(POOLS[cfg['pool']])
    if not cfg.get('partition'):
        yield from ([(lb,) for lb in lbs] for lbs in itertools.product((0, 1), repeat=n))
    else:
        for k, rows in enumerate(itertools.product(itertools.product((0, 1), repeat=2), repeat=n)):
            if k % cfg['part'][1] == cfg['part'][0]:
                yield list(rows)


def make_learner(cfg):
    al = Stub(cfg['order'])
    kwargs = {} if cfg['p'] == 0.5 else {'sample_unknown_proba': cfg['p']}  # default
    if cfg['mode'] != 'persist':  # default
        kwargs['mode'] = cfg['mode']
    if cfg.get('partition') and cfg['p'] == 1:
        learner = FactorizedDualSpaceModel(al, sample_unknown_proba=1)
        learner.set_factorization_structure(partition=cfg['partition'], mode=cfg['mode'])
        return learner
    return FactorizedDualSpaceModel(al, partition=cfg['partition'], **kwargs) if cfg.get('partition') else DualSpaceModel(al, **kwargs)


class Reference:
    """ new polytope model which received all labels """
    def __init__(self, cfg, history, rows, Q):
        model = fresh(cfg, history)
        self.is_valid = model.is_valid
        self.base = model.predict(Q)
        self.pred = dict(zip(rows, model.predict(np.array(rows)).tolist()))


CACHE = {}


def reference(cfg, history, rows, Q):
    key = (repr(cfg), tuple(sorted(history)))
    if key not in CACHE:
        if len(CACHE) > 20000:
            CACHE.clear()
        CACHE[key] = Reference(cfg, history, rows, Q)
    return CACHE[key]


PIECES = {'persist': PersistentPolytope, 'positive': Polytope, 'negative': FlippedPolytope, 'categorical': CategoricalPolytope,
          'multiset': MultiSetPolytope, 'numerical': PersistentPolytope}


class Composed:
    """ one polytope per subspace: a point is positive if it is positive in all of them, negative if it is negative in one of them """
    def __init__(self, partition, modes):
        self.parts = [(idx, PIECES[m]()) for idx, m in zip(partition, modes)]

    @property
    def is_valid(self):
        return any(pol.is_valid for _, pol in self.parts)

    def update(self, X, partial):
        for k, (idx, pol) in enumerate(self.parts):
            pol.update(X[:, idx], partial[:, k])

    def predict(self, X):
        answers = np.array([pol.predict(X[:, idx]) if pol.is_valid else np.full(len(X), 0.5) for idx, pol in self.parts])
        return np.where((answers == 0).any(axis=0), 0.0, np.where((answers == 1).all(axis=0), 1.0, 0.5))


def fresh(cfg, history):
    X = np.array([x for x, _ in history], dtype=float)
    P = np.array([p for _, p in history], dtype=float)
    if not cfg.get('partition'):
        model = PIECES[cfg['mode']]()
        model.update(X, P.min(axis=1))
        return model

    mode = cfg['mode']
    model = Composed(cfg['partition'], [mode] * len(cfg['partition']) if isinstance(mode, str) else mode)
    model.update(X, P)
    return model


def queries(pool):
    pts = POOLS[pool]
    if pool == 'cat4':
        return [(a, b, 1 - b) for a in (-1, 0, 1, 2, 3, 5) for b in (0, 1)]
    return list(itertools.product(*[sorted({v for x in c for v in (x - 1, x, x + 1)}) for c in zip(*pts)]))


def run(cfg, stats):
    pts = POOLS[cfg['pool']]
    n = len(pts)
    Q = np.array(queries(cfg['pool']), dtype=float)
    batches = [(0, 1), (0, 2), (1,), (n - 1, 1, 0)]
    for k, partial in enumerate(labelings(cfg)):
        for initial in batches if cfg['pool'] == 'line4' or cfg.get('all') else [batches[k % 4]]:
            def execution(ch):
                learner = make_learner(cfg)
                if not session(cfg, learner, pts, partial, initial, Q, ch, stats):
                    return
                # second session of the same learner, on other labels
                if k % 3 == 0 and all(c == 0 for c in ch.choices):
                    learner.clear()
                    stats.check(learner.active_learner.cleared > 0, 'al-not-cleared', 'clear does not reach the active learner')
                    session(cfg, learner, pts, [tuple(1 - v for v in p) for p in partial[::-1]], (1, 0, n - 1) if k % 2 else initial[:1], Q, ch, stats)

            explore(execution, stats)
    stats.sample({'labels': partial, 'initial': initial})


def session(cfg, learner, pts, partial, initial, Q, ch, stats):
    n = len(pts)
    rows = [tuple(float(v) for v in x) for x in pts]
    number = {x: i for i, x in enumerate(rows)}
    final = [min(p) for p in partial]
    index = INDEXES['rotated'](n)
    data = PartitionedDataset(np.array(rows), index)
    al = learner.active_learner
    history, trace = [], []
    candidates = set()

    def fail(key, why):
        stats.violation(key, '{}\nconfig: {}\npartial labels: {}\ninitial: {}\ntrace: {}\ntraining set: {}'.format(
            why, cfg, partial, initial, trace, al.train), {'partial': partial, 'initial': initial, 'choices': ch.choices})
        return False

    def label(batch):
        lbs = LabeledSet([final[i] for i in batch], [list(partial[i]) for i in batch], index=[index[i] for i in batch])
        data.move_to_labeled(lbs)
        history.extend((rows[i], partial[i]) for i in batch)
        trace.append(batch)

    def check_training(ref):
        rest = list(al.train)
        for x, p in history:
            if (x, min(p)) not in rest:
                return fail('user-label-lost', 'label of {} is not in the training set'.format(x))
            rest.remove((x, min(p)))
        pred = [ref.pred[x] for x, _ in rest]
        for (x, lb), want in zip(rest, pred):
            if want == 0.5 or lb != want:
                return fail('dsm-label', 'training set has {} labeled {}, but the polytope model predicts {}'.format(x, lb, want))
            if cfg['p'] == 1 or (cfg['sub'] is None and x not in candidates):
                return fail('dsm-label-unexpected', 'training set has {}, which was not chosen by the active learner'.format(x))
        return True

    def check_fit():
        ref = reference(cfg, history, rows, Q)
        if not check_training(ref):
            return None
        if bool(learner.polytope_model.is_valid) != bool(ref.is_valid):
            fail('validity', 'polytope model valid: {}, expected {}'.format(learner.polytope_model.is_valid, ref.is_valid))
            return None
        labeled = {x for x, _ in history}
        known = {x for x, v in ref.pred.items() if v != 0.5 and x not in labeled}
        inferred = {tuple(x) for x in data.inferred.data.tolist()} if data.inferred_size else set()
        if inferred != known:
            fail('inferred', 'inferred points are {}, expected {}'.format(inferred, known))
            return None
        if {tuple(x) for x in data.labeled.data.tolist()} != labeled:
            fail('labeled', 'labeled points are {}'.format(data.labeled.data.tolist()))
            return None
        base = ref.base
        for name, f in (('predict', al.predict), ('predict_proba', al.predict_proba)):
            got = getattr(learner, name)(Q.copy())
            want = np.where(base == 0.5, f(Q), base)
            if got.tolist() != want.tolist():
                bad = [(q, g, w) for q, g, w in zip(Q.tolist(), got.tolist(), want.tolist()) if g != w]
                fail(name, 'wrong answers (point, answer, expected): {}'.format(bad[:4]))
                return None
        if learner.rank(Q).tolist() != al.rank(Q).tolist():
            fail('rank', 'ranks are not those of the active learner')
            return None
        return ref

    # initial sampling: batches are labeled without training, up to the last one
    for i in initial[:-1] if len(initial) > 2 else []:
        label((i,))
    label(tuple(initial[-1:]) if len(initial) > 2 else tuple(initial))

    high = 2 if cfg['sub'] is None else 1
    while True:
        with controlled(ch, unit=Draws(high), max_perm=3):
            learner.fit_data(data)
        stats.step()
        ref = check_fit()
        if ref is None:
            return False
        stats.state(cfg, history, sorted(al.train))
        if data.unlabeled_size == 0:
            break

        labeled = {x for x, _ in history}
        free = [x for x in rows if x not in labeled]
        pred = ref.pred
        unknown = [x for x in free if pred[x] == 0.5]
        candidates |= set(free) if cfg['sub'] else set()
        trained = {p for p, _ in al.train}
        order = sorted(free, key=lambda x: al.score(x))
        before = len(al.train)
        if unknown:
            best = min(unknown, key=lambda x: al.score(x))
            ahead = [x for x in order if pred[x] != 0.5 and x not in trained and al.score(x) < al.score(best)]
        else:
            best, ahead = order[0], []
        candidates |= set(ahead)
        al.ranked = 0
        with controlled(ch, unit=Draws(high), max_perm=3):
            res = learner.next_points_to_label(data, cfg['sub'])
        stats.step()
        got = [tuple(x) for x in res.data.tolist()]
        trace.append(('proposed', got))
        if len(got) != 1 or got[0] not in free or [rows[int(np.where(index == i)[0][0])] for i in res.index] != got:
            return fail('proposal', 'proposed {} (index {}), unlabeled points are {}'.format(got, res.index, free))
        if unknown and got[0] not in unknown:
            return fail('proposal-known', 'proposed {}, whose label is known, while {} are unknown'.format(got, unknown))
        if cfg['sub'] is None:
            if got[0] != best:
                return fail('proposal-rank', 'proposed {}, the best unknown point is {}'.format(got, best))
            extra = len(al.train) - before
            if cfg['p'] == 0 and cfg['order'] != 'stubborn' and ref.is_valid and {x for x, _ in al.train} != trained | set(ahead):
                return fail('dsm-labels', 'training set should have known points {}'.format(ahead))
            stats.outcome('known points used: {}'.format(extra))
        if not check_training(ref):
            return False
        inferred = {tuple(x) for x in data.inferred.data.tolist()} if data.inferred_size else set()
        if inferred != {x for x in free if pred[x] != 0.5}:
            return fail('proposal-side-effect', 'a proposal changed the inferred points to {}'.format(inferred))
        label((number[got[0]],))

    stats.outcome('valid' if ref.is_valid else 'invalid')
    return True
