from aideme.active_learning.dsm.polytope import MultiSetPolytope
from aideme.active_learning.version_space.categorical import MultiSetActiveLearner
from checks.polytopes import *

PROPERTY = 'P19'
RULE = 'every sequence of labeled subsets of 2 to 4 elements up to the length of the shard and every division into batches: validity and ' \
       'predictions are compared with the exhaustive enumeration of all assignments of elements to positive / negative; learner ' \
       'probabilities are checked on every query set'
ASSUMPTIONS = ['a set is positive iff all its elements are positive', 'at most 4 elements']


def configs(tier):
    big = tier == 'thorough'
    res = []
    for dim, lengths in ((2, (1, 2, 3, 4)), (3, (1, 2, 3) if not big else (1, 2, 3, 4)), (4, (1, 2) if not big else (1, 2, 3))):
        for n in lengths:
            parts = 1 if n < 3 and dim < 4 else 16
            res += [{'mode': 'model', 'dim': dim, 'length': n, 'part': [k, parts]} for k in range(parts)]
    for dim, n in ((2, 2), (3, 2)) if not big else ((2, 2), (3, 2), (3, 3)):
        res += [{'mode': 'learner', 'dim': dim, 'length': n, 'part': [k, 4]} for k in range(4)]
    res += [{'mode': 'chain', 'dim': d, 'part': [k, 8]} for d in (4,) for k in range(8)]
    return res


@lru_cache(maxsize=None)
def knowledge(dim, labeled):
    """
    :return: (consistent?, known positive elements, known negative elements) over all assignments consistent with labels
    """
    pos, neg, any_ok = set(range(dim)), set(range(dim)), False
    for bits in itertools.product((0, 1), repeat=dim):
        positive = {e for e in range(dim) if bits[e]}
        if all((set(s) <= positive) == bool(lb) for s, lb in labeled):
            any_ok = True
            pos &= positive
            neg -= positive
    return any_ok, frozenset(pos), frozenset(neg)


def encode(sets, dim):
    return np.array([[float(e in s) for e in range(dim)] for s in sets]).reshape(len(sets), dim)


def all_sets(dim):
    return [s for r in range(0, dim + 1) for s in itertools.combinations(range(dim), r)]


def run(cfg, stats):
    dim = cfg['dim']
    if cfg['mode'] == 'chain':
        return run_chain(cfg, stats)
    items = [(s, lb) for s in all_sets(dim) for lb in (0, 1)]
    n = cfg['length']
    for k, seq in enumerate(itertools.product(items, repeat=n)):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        for mask in range(2 ** (n - 1)) if n < 3 else (0, 2 ** (n - 1) - 1, 1):
            batches = split(seq, mask)
            stats.current = {'batches': batches}
            stats.executions += 1
            (model if cfg['mode'] == 'model' else learner)(cfg, batches, stats)
    stats.sample({'batches': batches})


def run_chain(cfg, stats):
    """ long histories in which several negative sets become informative one after the other """
    dim = cfg['dim']
    pairs = list(itertools.combinations(range(dim), 2)) + list(itertools.combinations(range(dim), 3))
    for k, negs in enumerate(itertools.combinations(pairs, 3)):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        for poss in itertools.permutations(range(dim), 2):
            for order in ((0, 0, 0, 1, 1), (1, 0, 0, 0, 1), (1, 1, 0, 0, 0)):
                it = {0: iter([(s, 0) for s in negs]), 1: iter([((p,), 1) for p in poss])}
                seq = [next(it[o]) for o in order]
                stats.executions += 1
                model(cfg, split(seq, 15), stats)
    stats.sample({'sequence': seq})


def model(cfg, batches, stats):
    dim = cfg['dim']
    pol = MultiSetPolytope()
    sets = [s for s in all_sets(dim)]
    Q = encode(sets, dim)
    given = []
    what = 'batches of (set, label) {}'.format(batches)
    for batch in batches:
        X, y = encode([s for s, _ in batch], dim), np.array([lb for _, lb in batch], dtype=float)
        given += batch
        stats.step()
        ok = pol.update(X, y)
        valid, pos, neg = knowledge(dim, tuple(sorted(set(given))))
        if bool(ok) != valid or bool(pol.is_valid) != valid:
            return stats.violation('validity', 'update returned {} and is_valid is {}, but labels are {}consistent: {}'.format(ok, pol.is_valid, '' if valid else 'in', what), {'batches': batches})
        pred = pol.predict(Q).tolist()
        for s, p in zip(sets, pred):
            if not valid:
                want = {0.5}
            elif not s:
                want = {0.5, 1.0}  # the empty set is positive
            elif set(s) & neg:
                want = {0.0}
            elif set(s) <= pos:
                want = {1.0}
            else:
                want = {0.5}
            if p not in want:
                return stats.violation('predictions:{}-for-{}'.format(p, max(want)), 'set {} is predicted {}, expected {}; known positive {}, known negative {}: {}'.format(
                    s, p, want, sorted(pos), sorted(neg), what), {'batches': batches})
        stats.state(dim, sorted(set(given)), pred)
        stats.outcome('valid' if valid else 'conflict')
        if not valid:
            try:
                pol.update(X, y)
                return stats.violation('invalid-update', 'update of an invalid model is accepted: {}'.format(what), {'batches': batches})
            except RuntimeError:
                break
    pol.clear()
    if not pol.is_valid or pol.predict(Q).tolist() != [0.5] * len(sets):
        stats.violation('clear', 'cleared model still knows something: {}'.format(what), {'batches': batches})


def learner(cfg, batches, stats):
    dim = cfg['dim']
    given = [t for b in batches for t in b]
    valid, pos, neg = knowledge(dim, tuple(sorted(set(given))))
    al = MultiSetActiveLearner()
    X, y = encode([s for s, _ in given], dim), np.array([lb for _, lb in given], dtype=float)
    np.random.seed(len(given))
    try:
        al.fit(X, y)
        raised = False
    except RuntimeError:
        raised = True
    if raised == valid:
        return stats.violation('learner-conflict', 'labels {} are {}'.format(given, 'rejected' if raised else 'accepted'), {'labeled': given})
    if not valid:
        stats.outcome('learner conflict')
        return
    sets = all_sets(dim)
    Q = encode(sets, dim)
    for seed in (0, 1):
        np.random.seed(seed)
        p = al.predict_proba(Q)
        if p.shape != (len(sets),) or not np.all((p >= 0) & (p <= 1)):
            return stats.violation('learner-probabilities', 'probabilities are {}: labels {}'.format(p, given), {'labeled': given})
        for s, q in zip(sets, p.tolist()):
            if set(s) <= pos and q != 1 or set(s) & neg and q != 0 or ((s, 0) in given and q != 0) or ((s, 1) in given and q != 1):
                return stats.violation('learner-known', 'set {} has probability {}; known positive {}, known negative {}, labels {}'.format(
                    s, q, sorted(pos), sorted(neg), given), {'labeled': given})
        np.random.seed(seed)
        if al.predict(Q).tolist() != (p > 0.5).astype(float).tolist():
            return stats.violation('learner-predict', 'labels are not the thresholded probabilities: labels {}'.format(given), {'labeled': given})
    stats.state('learner', dim, sorted(set(given)))
    stats.outcome('learner')
