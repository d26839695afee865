from aideme.active_learning.inference.inference import Inference
from checks.polytopes import *

PROPERTY = 'P20'
RULE = 'every sequence of labeled points over 2 or 3 subspaces with 2 or 3 values up to the length of the shard and every division into ' \
       'batches: known partial labels are compared with the exhaustive enumeration of all conjunctive hypotheses, and rejected updates ' \
       'with their inconsistency'
ASSUMPTIONS = ['final label is the conjunction of partial labels']

SPACES = {
    '2x2': ([[0], [1]], (2, 2)),
    '3x2': ([[0], [1]], (3, 2)),
    '2x2x2': ([[0], [1], [2]], (2, 2, 2)),
    'wide': ([[0, 1], [2]], (2, 2, 2)),  # first subspace has two columns
}


def configs(tier):
    big = tier == 'thorough'
    res = []
    for space, lengths in (('2x2', (1, 2, 3, 4)), ('3x2', (1, 2, 3) if not big else (1, 2, 3, 4)), ('2x2x2', (2, 3) if not big else (2, 3, 4)), ('wide', (2, 3))):
        for n in lengths:
            parts = 1 if n < 3 else 8
            res += [{'space': space, 'length': n, 'part': [k, parts]} for k in range(parts)]
    return sorted(res, key=lambda c: -c['length'])


@lru_cache(maxsize=None)
def knowledge(space, labeled):
    """ consistent?, dictionary (subspace, value) -> label if it is the same in all consistent hypotheses """
    partition, sizes = SPACES[space]
    points = list(itertools.product(*[range(s) for s in sizes]))
    atoms = sorted({(k, tuple(x[c] for c in p)) for x in points for k, p in enumerate(partition)})
    relevant = sorted({(k, tuple(x[c] for c in p)) for x, _ in labeled for k, p in enumerate(partition)})
    known, ok = None, False
    for bits in itertools.product((0, 1), repeat=len(relevant)):
        h = dict(zip(relevant, bits))
        if all(min(h[(k, tuple(x[c] for c in p))] for k, p in enumerate(partition)) == lb for x, lb in labeled):
            ok = True
            known = h if known is None else {a: v for a, v in known.items() if h[a] == v}
    return ok, known or {}


def run(cfg, stats):
    partition, sizes = SPACES[cfg['space']]
    points = list(itertools.product(*[range(s) for s in sizes]))
    items = [(x, lb) for x in points for lb in (0, 1)]
    n = cfg['length']
    for k, seq in enumerate(itertools.product(items, repeat=n)):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        for mask in range(2 ** (n - 1)) if n < 3 else (2 ** (n - 1) - 1, 0):
            batches = split(seq, mask)
            stats.current = {'batches': batches}
            stats.executions += 1
            check(cfg, partition, points, batches, stats)
    stats.sample({'batches': batches})


def check(cfg, partition, points, batches, stats):
    inf = Inference(partition)
    Q = arr(points)
    given = []
    what = 'batches of (point, label) {}'.format(batches)
    for batch in batches:
        X, y = arr([x for x, _ in batch]), np.array([lb for _, lb in batch], dtype=float)
        given += batch
        ok, known = knowledge(cfg['space'], tuple(sorted(set(given))))
        stats.step()
        try:
            inf.update(X, y)
            raised = False
        except RuntimeError:
            raised = True
        if raised == ok:
            return stats.violation('validity', 'labels are {}, but {}consistent: {}'.format('rejected' if raised else 'accepted', '' if ok else 'in', what), {'batches': batches})
        stats.outcome('consistent' if ok else 'inconsistent')
        if not ok:
            break
        want = [[float(known.get((k, tuple(x[c] for c in p)), 0.5)) for k, p in enumerate(partition)] for x in points]
        got = np.asarray(inf.predict_partial(Q), dtype=float).tolist()
        if got != want:
            bad = [(x, a, b) for x, a, b in zip(points, got, want) if a != b]
            return stats.violation('partial', 'partial labels (point, inferred, expected) {}: {}'.format(bad[:4], what), {'batches': batches})
        if np.asarray(inf.predict(Q), dtype=float).tolist() != [min(w) for w in want]:
            return stats.violation('final', 'final labels are {}, partial ones {}: {}'.format(inf.predict(Q), want, what), {'batches': batches})
        stats.state(cfg['space'], sorted(set(given)), want)
    inf.clear()
    if np.asarray(inf.predict(Q), dtype=float).tolist() != [0.5] * len(points):
        return stats.violation('clear', 'cleared inference still knows something: {}'.format(what), {'batches': batches})
    # new session with other labels: every point is positive
    for k, x in enumerate(Q.tolist()):
        inf.update(np.array([x]), np.array([1.]))
        want = [[float(any(tuple(y[c] for c in p) == tuple(x[c] for c in p) for y in Q.tolist()[:k + 1])) or 0.5 for p in partition] for x in points]
        if np.asarray(inf.predict_partial(Q), dtype=float).tolist() != want:
            return stats.violation('clear', 'after clearing, and positive labels for {}: partial labels are {}, expected {}: {}'.format(Q[:k + 1].tolist(), inf.predict_partial(Q), want, what),
                                   {'batches': batches})
