import itertools

import numpy as np
from sklearn.svm import SVC

from aideme import LabeledSet, PartitionedDataset
from aideme.active_learning import SubspatialSimpleMargin, SubspatialVersionSpace
from aideme.active_learning.version_space.subspace import SubspaceLearner

from mc.choice import Chooser, controlled

PROPERTY = 'P27'
RULE = 'generic learner: every matrix of partial probabilities, labels and ranks (of an alphabet) of 1 to 3 subspaces, with every combination of connectors, ' \
       'every division of the features of a menu (overlapping, slices, none) and every sequence of fit / new division / clear up to the depth of the shard; ' \
       'version space learner: every labeling of small data sets with numerical (in all modes of the dual space model), categorical and set-valued subspaces, every loss and label function; ' \
       'margin learner: every labeling of small data sets; combined values and data seen by subspaces are compared with a reference'
ASSUMPTIONS = ['at most 3 subspaces and 4 features', 'subspace learners of the generic learner are recording stubs', 'numerical version spaces: labels of each subspace are '
               'separable in its feature space (rbf kernel, distinct points)']

PARTITIONS = [None, [[0], [1, 2]], [[1, 2], [0]], [[2], [0], [1]], [[0, 1], [1, 2]], [slice(0, 2), slice(2, 3)], [[2, 0]], [[0, 1, 2], [1]]]
X3 = np.array([[1., 10., 100.], [2., 20., 200.], [3., 10., 300.], [4., 40., 100.]])
SUM = lambda v: v.sum(axis=0)  # noqa: E731
LABEL = {'AND': min, 'or': max, 'callable': lambda v: float(sum(v) >= 1.5)}
PROBA = {'MIN': min, 'max': max, 'PROD': lambda v: float(np.prod(v)), 'callable': lambda v: sum(v) / len(v)}
RANK = {'SUM': sum, 'square': lambda v: sum(x * x for x in v), 'callable': lambda v: v[0] - 2 * v[-1]}
CALL = {'label': lambda ys: (np.sum(ys, axis=0) >= 1.5).astype(float), 'proba': lambda ps: np.mean(ps, axis=0), 'rank': lambda r: r[0] - 2 * r[-1]}
LOSS = {'GREEDY': lambda p: float(np.prod([1 - 2 * v * (1 - v) for v in p])), 'SQUARED': lambda p: sum((v - 0.5) ** 2 for v in p),
        'PRODUCT': lambda p: abs(float(np.prod(p)) - 0.5), 'callable': lambda p: p[0] - 2 * p[-1]}


def configs(tier):
    big = tier == 'thorough'
    res = []
    for kind in ('proba', 'label', 'rank'):
        for n in (1, 2, 3):
            res.append({'mode': 'combine', 'kind': kind, 'n': n, 'points': 2 if n < 3 or big else 1})
    for first in range(len(PARTITIONS)):
        res.append({'mode': 'sequence', 'first': first, 'depth': 3 if big else 2})
    for kind in ('cat', 'three', 'multi', 'mixed', 'numerical', 'numerical-only', 'default'):
        for part in range(8):
            res.append({'mode': 'vs', 'kind': kind, 'part': [part, 8], 'big': big})
    res += [{'mode': 'margin', 'partition': k, 'big': big} for k in range(len(PARTITIONS))]
    res.append({'mode': 'errors'})
    return res


def run(cfg, stats):
    {'combine': run_combine, 'sequence': run_sequence, 'vs': run_vs, 'margin': run_margin, 'errors': run_errors}[cfg['mode']](cfg, stats)


class Stub:
    created = []

    def __init__(self):
        self.fits = []
        self.table = None
        Stub.created.append(self)

    def clone(self):
        return Stub()

    def clear(self):
        self.fits = []

    def fit(self, X, y):
        self.fits.append((np.array(X).tolist(), np.array(y).tolist()))

    def value(self, X):
        self.asked = np.array(X).tolist()
        return np.array(self.table[:len(X)], dtype=float)

    predict = predict_proba = rank = value


def columns(partition, X):
    return [X[:, p].tolist() for p in partition] if partition else [X.tolist()]


def run_combine(cfg, stats):
    """ values of subspaces are combined point by point """
    n, N = cfg['n'], cfg['points']
    values = {'label': (0., 1.), 'proba': (0., 0.25, 0.5, 1.), 'rank': (0., 0.5, 2.)}[cfg['kind']]
    table = {'label': LABEL, 'proba': PROBA, 'rank': RANK}[cfg['kind']]
    partition = {1: [[0, 2]], 2: [[1], [0, 2]], 3: [[2], [0], [1, 0]]}[n]
    X = X3[:N]
    for name, f in table.items():
        conn = CALL[cfg['kind']] if name == 'callable' else name
        kw = {{'label': 'label_function', 'proba': 'probability_function', 'rank': 'ranking_function'}[cfg['kind']]: conn}
        learner = SubspaceLearner(Stub(), partition=partition, **kw)
        learner.fit(X3, np.tile([0., 1., 0., 1.], (n, 1)).T)
        subs = learner.learners
        for flat in itertools.product(values, repeat=n * N):
            m = np.array(flat).reshape(n, N)
            for s, row in zip(subs, m):
                s.table = row
            got = np.array({'label': learner.predict, 'proba': learner.predict_proba, 'rank': learner.rank}[cfg['kind']](X))
            want = [f([float(v) for v in m[:, i]]) for i in range(N)]
            stats.executions += 1
            stats.step()
            stats.state(cfg['kind'], n, name, flat)
            case = {'config': cfg, 'connector': name, 'values': m.tolist()}
            if got.shape != (N,) or not np.allclose(got, want, rtol=0, atol=1e-12):
                stats.violation('combine', '{} of partial values {} is {}, expected {}'.format(name, m.tolist(), got.tolist(), want), case)
            if [s.asked for s in subs] != columns(partition, X):
                stats.violation('columns', 'subspaces were asked about {}, expected {}'.format([s.asked for s in subs], columns(partition, X)), case)
        if cfg['kind'] == 'proba':  # labels computed from probabilities
            learner = SubspaceLearner(Stub(), partition=partition, label_function=None, **kw)
            for flat in itertools.product(values, repeat=n * N):
                m = np.array(flat).reshape(n, N)
                for s, row in zip(learner.learners, m):
                    s.table = row
                got = learner.predict(X)
                want = [float(f([float(v) for v in m[:, i]]) > 0.5) for i in range(N)]
                stats.executions += 1
                stats.step()
                if np.array(got).tolist() != want:
                    stats.violation('labels', 'labels of partial probabilities {} with {} are {}, expected {}'.format(m.tolist(), name, got, want), m.tolist())
    stats.outcome('{} {}'.format(n, cfg['kind']))


def run_sequence(cfg, stats):
    """ data which reaches the learners of the subspaces """
    labels = np.array([[0., 1., 1.], [1., 1., 0.], [0., 0., 1.], [1., 0., 0.]])
    ops = ['fit', 'fit_data', 'clear'] + ['set{}'.format(k) for k in range(len(PARTITIONS))]
    for seq in itertools.product(ops, repeat=cfg['depth']):
        partition = PARTITIONS[cfg['first']]
        learner = SubspaceLearner(Stub(), partition=partition)
        expected = [[] for _ in columns(partition, X3)]
        case = {'first': cfg['first'], 'operations': seq}
        for op in seq + ('fit_data', 'fit'):
            n = len(expected)
            if op == 'clear':
                learner.clear()
                expected = [[] for _ in expected]
            elif op == 'fit':
                learner.fit(X3, labels[:, :n])
                for k, c in enumerate(columns(partition, X3)):
                    expected[k].append((c, labels[:, k].tolist()))
            elif op == 'fit_data':
                data = PartitionedDataset(X3.copy())
                data.move_to_labeled(LabeledSet(labels[[2, 0], :n].min(axis=1), labels[[2, 0], :n], [2, 0]))
                data.move_to_labeled(LabeledSet(labels[[3], :n].min(axis=1), labels[[3], :n], [3]))
                learner.fit_data(data)
                X, y = data.training_set(get_partial=True)
                for k, c in enumerate(columns(partition, X)):
                    expected[k].append((c, y[:, k].tolist()))
            else:
                partition = PARTITIONS[int(op[3:])]
                if partition is None:
                    learner.set_factorization_structure()
                else:
                    learner.set_factorization_structure(partition=partition)
                expected = [[] for _ in columns(partition, X3)]
            stats.step()
            got = [s.fits for s in learner.learners]
            if got != expected:
                stats.violation('training', 'subspaces were trained with {}, expected {}, by {}'.format(got, expected, case), case)
            if len({id(s) for s in learner.learners}) != len(expected):
                stats.violation('shared', 'subspaces share a learner: {}'.format(case), case)
        stats.executions += 1
        stats.state(case)
        stats.outcome('sequence')
    stats.sample(case)


def category_proba(points, labels, x):
    known = {tuple(p): l for p, l in zip(points, labels)}
    return known.get(tuple(x), 0.5)


def set_states(points, labels, x):
    """ range of probabilities: exact if the labels decide the set x """
    dim, ok = len(x), []
    for s in itertools.product((0, 1), repeat=dim):
        if all((all(s[i] for i in range(dim) if p[i])) == (l == 1) for p, l in zip(points, labels)):
            ok.append(float(all(s[i] for i in range(dim) if x[i])))
    return set(ok)


def run_vs(cfg, stats):
    kind = cfg['kind']
    onehot = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    sets = [[1., 0., 1.], [0., 1., 1.], [1., 1., 0.]]
    nums = [[0., 1.], [2., 0.], [1., 3.], [3., 2.]]
    small = {'n_samples': 2, 'warmup': 1, 'thin': 1, 'rounding': False}
    if kind == 'cat':
        A, B, pa, mode, kinds = onehot, onehot, [[0, 1, 2], [3, 4, 5]], 'categorical', 'cc'
    elif kind == 'three':
        two = [[1., 0.], [0., 1.]]
        A, B, pa, mode, kinds = two, [a + b for a in two for b in onehot], [[4, 5, 6], [0, 1], [2, 3]], ['categorical', 'CATEGORICAL', 'categorical'], 'ccc'
    elif kind == 'multi':
        A, B, pa, mode, kinds = sets, sets, [[0, 1, 2], [3, 4, 5]], ['multiset', 'MULTISET'], 'mm'
    elif kind == 'mixed':
        A, B, pa, mode, kinds = nums[:3], onehot, [[0, 1], [2, 3, 4]], ['positive', 'Categorical'], 'nc'
    elif kind == 'numerical':
        A, B, pa, mode, kinds = nums[:3], nums[1:], [[0, 1], [2, 3]], 'numerical', 'nn'
    elif kind == 'numerical-only':
        A, B, pa, mode, kinds = nums[:3], onehot, [[0, 1], [2, 3, 4]], ['numerical', 'categorical'], 'nn'
        small['numerical_only'] = True
    else:
        A, B, pa, mode, kinds = nums[:3], nums[1:], None, 'numerical', 'n'
    points = [a + b for a in A for b in B]
    if kind == 'three':
        points = points[::-2] + points[::4]
    count = 0
    for idx in itertools.combinations(range(len(points)), 3):
        X = np.array([points[i] for i in idx])
        for bits in itertools.product((0., 1.), repeat=3 * len(kinds)):
            y = np.array(bits).reshape(3, len(kinds))
            cols = columns(pa, X)
            # partial labels must be functions of the part, sets must not be contradictory
            if any(len({(tuple(c), l) for c, l in zip(cols[k], y[:, k])}) != len({tuple(c) for c in cols[k]}) for k in range(len(kinds))):
                continue
            if any(kinds[k] == 'm' and not set_states(cols[k], y[:, k], [0.] * 3) for k in range(len(kinds))):
                continue
            numeric = 'n' in kinds
            if numeric and any(kinds[k] == 'n' and len(set(y[:, k])) == 1 for k in range(len(kinds))) and not cfg['big']:
                continue
            count += 1
            if count % cfg['part'][1] != cfg['part'][0] or (numeric and not cfg['big'] and count % 5):
                continue
            losses = list(LOSS) if not numeric else [list(LOSS)[count % 4]]
            for loss in losses:
                m = mode
                if kind in ('numerical', 'mixed'):  # names of modes of the dual space model
                    names = ['numerical', 'positive', 'negative', 'persist', 'Persist']
                    m = [names[count % 5], names[count // 5 % 5] if kind == 'numerical' else mode[1]]
                for lf in ('PROD', 'and', 'OR') if not numeric else (('PROD', 'and', 'OR')[count % 3],):
                    one_vs(cfg, stats, X, y, cols, pa, m, kinds, points, loss, lf, small)


class Pattern(Chooser):
    """ fixed outcomes of random draws: nothing that is compared may depend on them """
    def __init__(self, k):
        super().__init__()
        self.k, self.count = k, 0

    def choose(self, n):
        self.count += 1
        return (self.count * (self.k + 1) + self.count // 3) % n


def one_vs(cfg, stats, X, y, cols, pa, mode, kinds, points, loss, lf, small):
    case = {'kind': cfg['kind'], 'points': X.tolist(), 'labels': y.tolist(), 'loss': loss, 'label function': lf}
    learner = SubspatialVersionSpace(partition=pa, mode=mode, label_function=lf, loss=CALL['rank'] if loss == 'callable' else loss, **small)
    Q = np.array(points)
    with controlled(Pattern(len(cols) + int(y.sum())), fractions=(0.25, 0.5, 0.75)):
        compare_vs(cfg, stats, learner, X, y, cols, pa, kinds, loss, lf, Q, case)


def compare_vs(cfg, stats, learner, X, y, cols, pa, kinds, loss, lf, Q, case):
    for attempt in range(2):
        learner.fit(X, y)
        P = np.array(learner.predict_proba_all(Q))
        stats.executions += 1
        stats.step()
        stats.state(case)
        if P.shape != (len(kinds), len(Q)) or P.min() < 0 or P.max() > 1:
            stats.violation('partial', 'partial probabilities have shape {} and range [{}, {}]'.format(P.shape, P.min(), P.max()), case)
            return
        for k, kd in enumerate(kinds):
            qs = columns(pa, Q)[k]
            for i, q in enumerate(qs):
                if kd == 'c':
                    want = {category_proba(cols[k], y[:, k], q)}
                elif kd == 'm':
                    want = set_states(cols[k], y[:, k], q)
                    want = want if len(want) == 1 else None
                else:
                    want = {1.} if any(c == q and l == 1 for c, l in zip(cols[k], y[:, k])) else {0.} if any(c == q for c in cols[k]) else None
                if want is not None and P[k, i] not in want:
                    stats.violation('partial', 'subspace {} gives probability {} to {}, expected {}: {}'.format(k, P[k, i], q, want, case), case)
        if 'm' not in kinds:  # the set-valued learner samples again at each call
            pr = {'PROD': lambda v: float(np.prod(v)), 'and': min, 'OR': max}[lf]
            want = [pr(P[:, i].tolist()) for i in range(len(Q))]
            parts = np.array([(P[k] > 0.5) for k in range(len(kinds))], dtype=float)
            lab = [float(w > 0.5) for w in want] if lf == 'PROD' else parts.min(axis=0).tolist() if lf == 'and' else parts.max(axis=0).tolist()
            if not np.allclose(learner.predict_proba(Q), want, rtol=0, atol=1e-12):
                stats.violation('probabilities', 'probabilities are {}, expected {}: {}'.format(learner.predict_proba(Q).tolist(), want, case), case)
            if np.array(learner.predict(Q)).tolist() != lab:
                stats.violation('labels', 'labels are {}, expected {}: {}'.format(np.array(learner.predict(Q)).tolist(), lab, case), case)
            rk = [LOSS[loss](P[:, i].tolist()) for i in range(len(Q))]
            if not np.allclose(learner.rank(Q), rk, rtol=0, atol=1e-12):
                stats.violation('ranks', 'ranks are {}, expected {}: {}'.format(learner.rank(Q).tolist(), rk, case), case)
        stats.outcome('{} {}'.format(cfg['kind'], 'again' if attempt else 'first'))
        if attempt == 0:  # a second session must not depend on the first one
            learner.clear()
            y = 1 - y
            if any(kinds[k] == 'm' and not set_states(cols[k], y[:, k], [0.] * 3) for k in range(len(kinds))):
                return


def run_margin(cfg, stats):
    partition = PARTITIONS[cfg['partition']]
    X = X3 / [1., 10., 100.]
    n = len(columns(partition, X))
    Q = np.array([[a, b, c] for a in (1., 2.5, 4.) for b in (1., 3.) for c in (1., 2.)])
    vectors = [v for v in itertools.product((0., 1.), repeat=4) if 0 < sum(v) < 4]
    count = 0
    for combo in itertools.product(vectors, repeat=n):
        count += 1
        if n == 3 and count % (7 if cfg['big'] else 29):
            continue
        y = np.array(combo).T
        for C, kernel, gamma in ((1., 'rbf', 'auto'), (100., 'linear', 'auto'), (1e3, 'rbf', 0.5)):
            for lf in ('AND', 'OR'):
                learner = SubspatialSimpleMargin(partition=partition, label_function=lf, C=C, kernel=kernel, gamma=gamma)
                learner.fit(X, y)
                ref = [SVC(C=C, kernel=kernel, gamma=gamma).fit(np.array(c), y[:, k]) for k, c in enumerate(columns(partition, X))]
                qs = [np.array(c) for c in columns(partition, Q)]
                lab = np.array([r.predict(q) for r, q in zip(ref, qs)])
                rk = sum(np.abs(r.decision_function(q)) for r, q in zip(ref, qs))
                case = {'partition': str(partition), 'labels': y.tolist(), 'C': C, 'kernel': kernel, 'gamma': gamma, 'function': lf}
                stats.executions += 1
                stats.step()
                stats.state(case)
                want = lab.min(axis=0) if lf == 'AND' else lab.max(axis=0)
                if not np.array_equal(learner.predict(Q), want):
                    stats.violation('labels', 'labels are {}, expected {}: {}'.format(learner.predict(Q).tolist(), want.tolist(), case), case)
                if not np.allclose(learner.rank(Q), rk, rtol=1e-9, atol=1e-9):
                    stats.violation('ranks', 'ranks are {}, expected {}: {}'.format(learner.rank(Q).tolist(), rk.tolist(), case), case)
                stats.outcome('margin')


def run_errors(cfg, stats):
    for args in ({'partition': [[0], [1]], 'mode': ['numerical']}, {'partition': [[0]], 'mode': ['numerical', 'categorical']}, {'partition': [[0]], 'mode': 'other'},
                 {'partition': [[0], [1]], 'mode': ['numerical', 'set']}):
        for late in (False, True):
            stats.step()
            stats.executions += 1
            stats.state(args, late)
            try:
                if late:
                    SubspatialVersionSpace().set_factorization_structure(**args)
                else:
                    SubspatialVersionSpace(**args)
                stats.violation('errors', 'accepted {}'.format(args), args)
            except ValueError:
                stats.outcome('rejected')
