import itertools

import numpy as np

from aideme import LabeledSet, PartitionedDataset
from aideme.active_learning.factorization.active_learning import FactorizationManager
from aideme.active_learning.factorization.learn import compute_factorization, compute_factorization_and_partial_labels, compute_relevant_attributes
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty
from scipy.optimize import OptimizeResult

PROPERTY = 'P32'
RULE = 'every boolean matrix of relevant features up to 3 x 3, 4 x 2 and 2 x 4; every sequence of up to 5 factorizations of a menu and every ' \
       'user factorization for the decision to switch, and of up to 9 of two of them with clears at any one or two moments; partial labels and factorization of every pattern of large and zero weights of up to 3 subspaces, and of shared subspaces with moderate weights; relevant attributes of all small weight matrices and groups of features'
ASSUMPTIONS = ['features: at most 4', 'weights are far from the thresholds', 'user factorizations have pairwise incomparable subspaces']

FACTS = [[[0], [1], [2]], [[0, 1], [2]], [[2], [0, 1]], [[0], [2]], [[1, 2], [0]], [[0, 1, 2]], [[0, 2], [1, 2]], [[1], [2], [3]]]
USER = [None, [[0], [1], [2]], [[2], [1], [0]], [[1], [2], [0]], [[0, 1], [2]], [[2], [1, 0]], [[2, 0], [1]], [[0, 1, 2]], [[0], [1]], [[1, 2], [0, 2]], [[0, 3], [1, 2]], [[1], [0, 3], [2, 4]], [[2], [0, 3], [1]]]


def configs(tier):
    big = tier == 'thorough'
    res = [{'mode': 'maximal', 'rows': r, 'cols': c} for r, c in ((1, 3), (2, 3), (3, 3), (4, 2), (2, 4)) + (((4, 3), (3, 4)) if big else ())]
    for stable in (1, 2, 3):
        for k in range(len(FACTS)):
            res.append({'mode': 'manager', 'stable': stable, 'first': k, 'length': 5 if big else 4})
            res.append({'mode': 'long', 'stable': stable, 'first': k, 'length': 9 if big else 7})
    res += [{'mode': 'partial', 'subspaces': n, 'part': [k, 8], 'big': big} for n in (1, 2, 3) for k in range(8)]
    res += [{'mode': 'shared', 'part': [k, 4], 'big': big} for k in range(4)]
    res += [{'mode': 'relevant', 'rows': r, 'cols': c} for r, c in ((1, 3), (2, 2), (1, 4)) + (((2, 3),) if big else ())]
    return res


def run(cfg, stats):
    {'maximal': run_maximal, 'manager': run_manager, 'long': run_long, 'partial': run_partial, 'shared': run_shared, 'relevant': run_relevant}[cfg['mode']](cfg, stats)


def maximal(rows):
    sets = {frozenset(i for i, v in enumerate(r) if v) for r in rows}
    return sorted(sorted(s) for s in sets if not any(s < t for t in sets))


def run_maximal(cfg, stats):
    for bits in itertools.product((False, True), repeat=cfg['rows'] * cfg['cols']):
        m = np.array(bits).reshape(cfg['rows'], cfg['cols'])
        got, want = compute_factorization(m.copy()), maximal(m)
        stats.executions += 1
        stats.step()
        stats.state(cfg, bits)
        if [[int(v) for v in s] for s in got] != want:
            stats.violation('maximal', 'factorization of {} is {}, expected {}'.format(m.tolist(), got, want), m.tolist())
        stats.outcome('{} subspaces'.format(len(want)))
    stats.sample({'matrix': m.tolist(), 'factorization': want})


def compatible(fact, user):
    """ None, or the positions of the subspaces of fact, in the order of the user's sorted factorization """
    if user is None or len(fact) != len(user):
        return None
    user = sorted(sorted(s) for s in user)
    pos = []
    for s in fact:
        hits = [j for j, u in enumerate(user) if set(s) <= set(u)]
        if len(hits) != 1:
            return None
        pos.append(hits[0])
    return [pos.index(j) for j in range(len(user))] if len(set(pos)) == len(pos) else None


def run_manager(cfg, stats):
    for rest in itertools.product(range(len(FACTS)), repeat=cfg['length'] - 1):
        seq = (cfg['first'],) + rest
        if len(set(seq)) > 3:
            continue
        for user in USER:
            for clear_at in ((), (2,)):
                for late in (False, True):  # user factorization given afterwards
                    session(cfg, stats, seq, user, clear_at, late)
    stats.sample({'sequence': [FACTS[i] for i in seq], 'stable': cfg['stable']})


def run_long(cfg, stats):
    """ two factorizations of the menu, cleared at any one or two moments """
    n = cfg['length']
    moments = [c for k in (1, 2) for c in itertools.combinations(range(1, n), k)]
    for other in range(len(FACTS)):
        users = [u for u in USER if any(compatible(FACTS[i], u) for i in (cfg['first'], other))][:2] or [None]
        for bits in itertools.product((0, 1), repeat=n - 1):
            if other <= cfg['first'] and any(bits) and other == cfg['first']:
                continue
            if not any(bits) and other:
                continue
            seq = (cfg['first'],) + tuple(other if b else cfg['first'] for b in bits)
            for user in users:
                for clear_at in moments:
                    session(cfg, stats, seq, user, clear_at, False)
    stats.sample({'sequence': [FACTS[i] for i in seq], 'stable': cfg['stable'], 'clear': moments[-1]})


def session(cfg, stats, seq, user, clear_at, late):
    manager = FactorizationManager(user_fact=None if late else user, stable_count=cfg['stable'])
    if late:
        manager.set_user_fact(user)
    prev, count = None, 0
    case = {'sequence': [FACTS[i] for i in seq], 'user': user, 'stable': cfg['stable'], 'clear': clear_at}
    stats.executions += 1
    for k, i in enumerate(seq):
        if k in clear_at:
            manager.clear()
            prev, count = None, 0
        fact = [list(s) for s in FACTS[i]]
        manager.update(fact)
        count = count + 1 if prev == fact else 0
        prev = fact
        got = manager.can_switch_to_full_factorization(fact)
        stats.step()
        order = compatible(fact, user)
        want = count >= cfg['stable'] and order is not None
        if bool(got) != want:
            stats.violation('switch', 'can switch: {}, expected {} after {} factorizations: {}'.format(got, want, k + 1, case), case)
        elif want:
            if list(manager.fact_reindexing) != order:
                stats.violation('order', 'subspaces are reordered by {}, expected {}: {}'.format(manager.fact_reindexing, order, case), case)
            srt = sorted(sorted(s) for s in user)
            if not all(set(fact[manager.fact_reindexing[j]]) <= set(srt[j]) for j in range(len(srt))):
                stats.violation('order', 'subspaces {} reordered by {} do not correspond to {}'.format(fact, manager.fact_reindexing, user), case)
        stats.outcome('switch' if want else 'stay')
    stats.state(case)


class Fixed:
    """ in place of an optimizer """
    def __init__(self, x):
        self.x = x

    def minimize(self, x0, func, grad):
        return OptimizeResult(x=self.x.reshape(x0.shape), fun=0.)


def run_partial(cfg, stats):
    """ large weights, so that a few steps of the refining optimizers change nothing essential """
    n = cfg['subspaces']
    dim = 3
    patterns = [p for p in itertools.product((0., 40., -40.), repeat=dim) if any(p) and any(v == 0 for v in p)]
    X = np.array(list(itertools.product((-1., 1.), repeat=dim)))
    count = 0
    for rows in itertools.product(patterns, repeat=n):
        count += 1
        if count % cfg['part'][1] != cfg['part'][0] or (n == 3 and not cfg['big'] and count % 23):
            continue
        for bias in (-7., 7., None):
            W, b = np.array(rows), np.full(n, bias or 0.) * np.array([1., -1., 1.])[:n]
            margins = X @ W.T + b
            if np.abs(margins).min() < 5 or margins.min(axis=0).max() > 0:
                continue  # some point is close to a border, or a subspace is always positive, which is another property
            y = (margins > 0).all(axis=1).astype(float)
            data = PartitionedDataset(X.copy())
            data.move_to_labeled(LabeledSet(y[data.index], index=data.index))
            model = LinearFactorizationLearner(Fixed(np.c_[W, b] if bias else W), add_bias=bias is not None)
            model.fit(X, y, n, x0=np.zeros((1, n, dim + model.add_bias)))
            fact, partial = compute_factorization_and_partial_labels(data, model, fista_step_size=1e-6, max_iter=1)
            case = {'weights': W.tolist(), 'bias': bias}
            stats.executions += 1
            stats.step()
            stats.state(case)
            # the relevant features of a subspace have a more than average share of its weights
            share = np.abs(W) / np.abs(W).sum(axis=1).reshape(-1, 1)
            want = maximal(share > 1 / dim)
            if [[int(v) for v in s] for s in fact] != want:
                stats.violation('factorization', 'factorization is {}, expected {}: {}'.format(fact, want, case), case)
                continue
            sets = [frozenset(np.where(r)[0].tolist()) for r in share > 1 / dim]
            Z = data.training_set()[0]
            m = Z @ W.T + b
            logp = -np.logaddexp(0, -m)
            expected = np.array([sum(logp[:, j] / sum(s <= set(g) for g in want) for j, s in enumerate(sets) if s <= set(f)) for f in want]).T
            sure = np.abs(expected - np.log(0.5)) > 0.3
            if partial.shape != expected.shape or np.any((partial != (expected > np.log(0.5)))[sure]):
                stats.violation('partial-labels', 'partial labels are {}, expected {}: {}'.format(partial.tolist(), (expected > np.log(0.5)).tolist(), case), case)
            stats.outcome('{} of {} subspaces'.format(len(want), n))
            stats.sample(dict(case, factorization=want))


def run_shared(cfg, stats):
    """ subspaces contained in several others, with moderate weights: their influence is shared """
    dim, count = 3, 0
    X = np.array(list(itertools.product((-1., 1.), repeat=dim)))
    for shared, *others in itertools.product(range(dim), *[(40., -40.)] * 4):
        rest = [i for i in range(dim) if i != shared]
        for place in range(3):
            for margin in (-2.4, -1.9, -0.4, 0.3, 1.4):
                count += 1
                if count % cfg['part'][1] != cfg['part'][0] or not cfg['big'] and count % 3:
                    continue
                W, b = np.zeros((3, dim)), np.zeros(3)
                rows = [k for k in range(3) if k != place]
                for n, (k, i) in enumerate(zip(rows, rest)):
                    W[k, shared], W[k, i], b[k] = others[2 * n], others[2 * n + 1], 7. if n else 3.
                W[place, shared] = 2. if count % 2 else -2.
                b[place] = margin - 2.
                margins = X @ W.T + b
                y = (margins > 0).all(axis=1).astype(float)
                data = PartitionedDataset(X.copy())
                data.move_to_labeled(LabeledSet(y[data.index], index=data.index))
                model = LinearFactorizationLearner(Fixed(np.c_[W, b]), add_bias=True)
                model.fit(X, y, 3, x0=np.zeros((1, 3, dim + 1)))
                fact, partial = compute_factorization_and_partial_labels(data, model, fista_step_size=1e-6, max_iter=1)
                case = {'weights': W.tolist(), 'bias': b.tolist()}
                stats.executions += 1
                stats.step()
                stats.state(case)
                want = maximal(W != 0)
                if [[int(v) for v in s] for s in fact] != want:
                    stats.violation('factorization', 'factorization is {}, expected {}: {}'.format(fact, want, case), case)
                    continue
                # a step changes weights by 0.1 at most
                sets = [frozenset(np.where(r)[0].tolist()) for r in W != 0]
                m = data.training_set()[0] @ W.T + b
                low, high = (np.array([sum(-np.logaddexp(0, -(m[:, j] + e)) / sum(s <= set(g) for g in want) for j, s in enumerate(sets) if s <= set(f)) for f in want]).T for e in (-0.45, 0.45))
                sure = (low > np.log(0.5)) | (high < np.log(0.5))
                if partial.shape != low.shape or np.any((partial != (low > np.log(0.5)))[sure]):
                    stats.violation('partial-labels', 'partial labels are {}, expected {}: {}'.format(partial.tolist(), (low > np.log(0.5)).tolist(), case), case)
                stats.outcome('shared, {} of {} sure'.format(int(sure.sum()), sure.size))
    stats.sample(case)


def groupings(dim):
    yield None
    for assign in itertools.product(range(dim), repeat=dim):
        if assign[0] == 0 and all(assign[k] <= max(assign[:k]) + 1 for k in range(1, dim)):
            yield [[i for i in range(dim) if assign[i] == g] for g in range(max(assign) + 1)]


def run_relevant(cfg, stats):
    """ attributes are relevant if they (or their group) have more than an average share of the weights """
    r, c = cfg['rows'], cfg['cols']
    for flat in itertools.product((0., 1., -2., 5.), repeat=r * c):
        W = np.array(flat).reshape(r, c)
        if not (W != 0).any(axis=1).all():
            continue
        for groups in groupings(c):
            for bias in (False, True):
                model = LinearFactorizationLearner(Fixed(np.c_[W, np.full(r, 100.)] if bias else W), SparseGroupLassoPenalty(0.1, 0.1, groups=groups), add_bias=bias)
                model.fit(np.eye(c), np.ones(c), r, x0=np.zeros((1, r, c + bias)))
                got = np.array(compute_relevant_attributes(model)).tolist()
                want = []
                for row in W.tolist():
                    parts = groups or [[i] for i in range(c)]
                    share = [sum(abs(row[i]) for i in g) for g in parts]
                    of = {i: k for k, g in enumerate(parts) for i in g}
                    want.append([share[of[i]] * len(parts) > sum(share) for i in range(c)])
                ties = [any(share * len(groups or row) == sum(map(abs, row)) for share in ([sum(abs(row[i]) for i in g) for g in groups] if groups else map(abs, row))) for row in W.tolist()]
                stats.executions += 1
                stats.step()
                stats.state(flat, groups, bias)
                if any(g != w for g, w, t in zip(got, want, ties) if not t) or len(got) != r or model.weights.tolist() != W.tolist():
                    stats.violation('relevant', 'relevant attributes of {} with groups {} are {}, expected {}'.format(W.tolist(), groups, got, want), {'weights': W.tolist(), 'groups': groups})
                stats.outcome('{} groups'.format(len(groups) if groups else 'no'))
    stats.sample({'weights': W.tolist(), 'groups': groups})
