from aideme.active_learning.dsm.model import PolytopeModel
from aideme.active_learning.dsm.polytope import PersistentPolytope, Polytope
from checks.polytopes import *

PROPERTY = 'P16'
RULE = 'every sequence of labeled points (repetitions of a point with another label included) up to the length of the shard, with every ' \
       'division into batches; after every batch validity, returned value and predictions are compared with two independent models ' \
       'trained with the labels and the opposite labels, and the same after another session and clear (a third of the largest pairs of sessions in the quick tier) (whose own predictions are decided by P13 and P14)'
ASSUMPTIONS = ['points have small integer coordinates']


def configs(tier):
    big = tier == 'thorough'
    res = []
    for length in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5):
        parts = 1 if length < 4 else 16
        res += [{'mode': 'line', 'length': length, 'part': [k, parts]} for k in range(parts)]
    res += [{'mode': 'clear', 'length': 4, 'part': [k, 8], 'big': big} for k in range(8)]
    for size in (4,) if not big else (4, 5):
        res += [{'mode': 'square', 'size': size, 'part': [k, 16]} for k in range(16)]
    return sorted(res, key=lambda c: -c.get('length', 4))


class Reference:
    def __init__(self):
        self.direct, self.flipped = Polytope(), Polytope()

    @property
    def is_valid(self):
        return self.direct.is_valid or self.flipped.is_valid

    def update(self, X, y):
        ok = True
        for pol, lb in ((self.direct, y), (self.flipped, 1 - y)):
            if pol.is_valid:
                ok &= bool(pol.update(X, lb))
        return ok

    def predict(self, X):
        if self.direct.is_valid:
            return self.direct.predict(X)
        if self.flipped.is_valid:
            return 1 - self.flipped.predict(X)
        return np.full(len(X), 0.5)


def check(grid, batches, make, stats):
    points = GRIDS[grid][0]
    Q = arr(GRIDS[grid][1])
    pol, ref = make(), Reference()
    stats.current = {'batches': batches}
    stats.executions += 1
    for k, batch in enumerate(batches):
        X, y = arr([points[p] for p, _ in batch]), np.array([lb for _, lb in batch], dtype=float)
        stats.step()
        if not ref.is_valid:
            try:
                pol.update(X, y)
                return stats.violation('invalid-update', 'update of an invalid model is accepted: {}'.format(batches), {'batches': batches})
            except RuntimeError:
                stats.outcome('rejected')
                return
        want = ref.update(X, y)
        got = pol.update(X, y)
        if bool(got) != bool(want):
            return stats.violation('return-value', 'update returns {}, expected {}\nbatches: {} (batch {})'.format(got, want, batches, k), {'batches': batches})
        if bool(pol.is_valid) != bool(ref.is_valid):
            return stats.violation('validity', 'is_valid is {}, expected {}\nbatches: {} (batch {})'.format(pol.is_valid, ref.is_valid, batches, k), {'batches': batches})
        a, b = pol.predict(Q).tolist(), ref.predict(Q).tolist()
        if a != b:
            diff = [(q, x, y) for q, x, y in zip(GRIDS[grid][1], a, b) if x != y]
            return stats.violation('predictions', 'wrong predictions (point, predicted, expected): {}\nbatches: {} (batch {})'.format(diff[:5], batches, k), {'batches': batches})
    stats.state(grid, batches, ref.direct.is_valid, ref.flipped.is_valid)
    stats.outcome('positive={} negative={}'.format(ref.direct.is_valid, ref.flipped.is_valid))


def cleared_model(first, make):
    def build():
        pol = make()
        for p, lb in first:
            if pol.is_valid:
                pol.update(arr([GRIDS['line5'][0][p]]), np.array([float(lb)]))
        pol.clear()
        return pol
    return build


def run(cfg, stats):
    items = [(p, lb) for p in range(5) for lb in (0, 1)]
    if cfg['mode'] == 'line':
        n = cfg['length']
        for k, seq in enumerate(itertools.permutations(items, n)):
            if k % cfg['part'][1] != cfg['part'][0]:
                continue
            for mask in range(2 ** (n - 1)) if n < 4 else (0, 2 ** (n - 1) - 1, 1, 2):
                batches = split(seq, mask)
                check('line5', batches, PersistentPolytope if mask % 2 == 0 else PolytopeModel, stats)
        stats.sample({'batches': batches})
    elif cfg['mode'] == 'clear':  # a first session, and clear, before the labels
        sessions = [s for n in (1, 2, 3) for s in itertools.combinations(items, n)]
        count = 0
        for first in sessions:
            for labels in sessions:
                count += 1
                if count % cfg['part'][1] != cfg['part'][0] or not cfg['big'] and len(first) + len(labels) > 5 and count % 3:
                    continue
                cleared = cleared_model(first, PersistentPolytope if count % 2 else PolytopeModel)
                check('line5', split(labels, (0, 3, 1)[count % 3]), cleared, stats)
        stats.sample({'cleared': first, 'labels': labels})
    else:
        n = cfg['size']
        for k, labeled in enumerate(labeled_sets('square3', n, reduce=True)):
            if k % cfg['part'][1] != cfg['part'][0]:
                continue
            for order in ((0, 1, 2, 3, 4), (3, 1, 0, 2, 4), (2, 3, 1, 4, 0)):
                seq = [labeled[j] for j in order if j < n]
                seq.append((seq[0][0], 1 - seq[0][1]) if k % 3 == 0 else ((seq[0][0] + 4) % 9, 1 - seq[-1][1]))  # one more point, often conflicting
                for mask in (2 ** n - 1, 0b1010):
                    check('square3', split(seq, mask), PersistentPolytope, stats)
        stats.sample({'sequence': seq})
