from aideme.active_learning.dsm.polytope import CategoricalPolytope, FlippedPolytope, MultiSetPolytope, PersistentPolytope, Polytope
from checks.polytopes import *

PROPERTY = 'P14'
RULE = 'every labeled set over a grid in 1, 2 and 3 dimensions up to the size of the shard, including the same point with both labels, given ' \
       'in several orders and batches (4 and 5 points of the square: also every division into two batches, 5 points with at least 3 in the first): validity is compared with exact geometry after every batch, and the behaviour of the invalid model ' \
       '(predictions, rejected updates, clearing, reuse) is checked'
ASSUMPTIONS = ['points have small integer coordinates', 'conflicts inside a hyperplane containing all positive points and the negative one may stay undetected']


def configs(tier):
    big = tier == 'thorough'
    res = [{'mode': 'set', 'grid': 'line5', 'size': s, 'part': [0, 1]} for s in range(1, 6)]
    for size in range(2, 6 if not big else 7):
        parts = 2 if size < 4 else 8 if size == 4 else 16
        res += [{'mode': 'set', 'grid': 'square3', 'size': size, 'part': [k, parts], 'reduce': size >= 4, 'min_pos': 3 if size == 5 and not big else 1} for k in range(parts)]
    res += [{'mode': 'set', 'grid': 'cube', 'size': 5 if not big else 6, 'part': [k, 16], 'min_pos': 4} for k in range(16)]
    for grid, n in (('line5', 3), ('square3', 4)):
        res += [{'mode': 'both', 'grid': grid, 'size': n if not big else n + 1, 'part': [k, 8]} for k in range(8)]
    res += [{'mode': 'reuse', 'grid': g} for g in ('line5', 'square3')]
    return sorted(res, key=lambda c: -c.get('size', 0))


def check(cls, grid, batches, stats, queries=None):
    flipped = cls is FlippedPolytope
    pol = cls()
    Q = arr(GRIDS[grid][1])
    points = GRIDS[grid][0]
    given = []
    stats.current = {'batches': batches}
    stats.executions += 1
    what = '{} batches {}'.format(cls.__name__, batches)
    for batch in batches:
        X, y = arr([points[p] for p, _ in batch]), np.array([lb for _, lb in batch], dtype=float)
        given += batch
        res = pol.update(X, y)
        stats.step()
        inside, certain = conflict(*pos_neg(grid, given, flipped))
        if bool(res) != bool(pol.is_valid):
            return stats.violation('return-value', 'update returned {} but is_valid is {}: {}'.format(res, pol.is_valid, what), {'batches': batches})
        if pol.is_valid and certain:
            return stats.violation('missed-conflict', 'labels {} (point, label) conflict, but the model is still valid: {}'.format(given, what), {'batches': batches})
        if not pol.is_valid and not inside:
            return stats.violation('false-conflict', 'labels {} (point, label) do not conflict, but the model is invalid: {}'.format(given, what), {'batches': batches})
        if not pol.is_valid:
            break

    stats.state(cls.__name__, grid, batches, pol.is_valid)
    if pol.is_valid:
        stats.outcome('valid')
        return
    stats.outcome('conflict')
    pred = pol.predict(Q)
    if pred.tolist() != [0.5] * len(Q):
        return stats.violation('invalid-predictions', 'invalid model predicts {}: {}'.format(sorted(set(pred.tolist())), what), {'batches': batches})
    try:
        pol.update(X[:1], y[:1])
        return stats.violation('invalid-update', 'update of an invalid model is accepted: {}'.format(what), {'batches': batches})
    except RuntimeError:
        pass
    if pol.is_valid:
        return stats.violation('revalidated', 'invalid model became valid: {}'.format(what), {'batches': batches})
    pol.clear()
    fresh = cls()
    if not pol.is_valid or pol.predict(Q).tolist() != [0.5] * len(Q):
        return stats.violation('clear', 'cleared model still knows something: {}'.format(what), {'batches': batches})
    again = [[t for t in b if t[1] == 1] for b in batches]
    for b in again:
        if b:
            X, y = arr([points[p] for p, _ in b]), np.array([lb for _, lb in b], dtype=float)
            if pol.update(X, y) != fresh.update(X, y):
                return stats.violation('clear', 'cleared model differs from a new one: {}'.format(what), {'batches': batches})
    if pol.predict(Q).tolist() != fresh.predict(Q).tolist():
        return stats.violation('clear', 'cleared model differs from a new one: {}'.format(what), {'batches': batches})


def run(cfg, stats):
    grid = cfg['grid']
    if cfg['mode'] == 'set':
        for k, labeled in enumerate(labeled_sets(grid, cfg['size'], cfg.get('reduce', False), cfg.get('min_pos', 0))):
            if k % cfg['part'][1] != cfg['part'][0]:
                continue
            ways = deliveries(labeled)
            if grid == 'cube' or cfg['size'] == 5:
                ways = [ways[k % len(ways)]]
            if grid == 'square3' and cfg['size'] in (4, 5):
                ways = list(ways) + two_batches(labeled, 1 if cfg['size'] == 4 else 3)
            for name, batches in ways:
                check(Polytope, grid, batches, stats)
                if name == 'one by one':
                    check(FlippedPolytope, grid, batches, stats)
        stats.sample({'labeled': labeled, 'batches': batches})
    elif cfg['mode'] == 'both':
        # same point labeled positive and negative, at any two moments of the history
        n = cfg['size']
        points = range(len(GRIDS[grid][0]))
        for k, pts in enumerate(itertools.combinations(points, n - 1)):
            if k % cfg['part'][1] != cfg['part'][0]:
                continue
            for dup in range(n - 1):
                for order in sorted(set(itertools.permutations(list(range(n - 1)) + [n - 1]))):
                    seq = [(pts[j], 1) if j < n - 1 else (pts[dup], 0) for j in order]
                    if n == 4 and order[0] > order[1] and order[0] != n - 1 and order[1] != n - 1:
                        continue
                    for mask in range(2 ** (n - 1)):
                        check(Polytope, grid, split(seq, mask), stats)
        stats.sample({'labeled twice': seq})
    else:
        # valid models can be cleared too, at any moment
        points = GRIDS[grid][0]
        Q = arr(GRIDS[grid][1])
        for labeled in labeled_sets(grid, 3):
            for cls in (Polytope, FlippedPolytope, PersistentPolytope):
                pol, fresh = cls(), cls()
                feed(pol, grid, split(labeled, 1))
                pol.clear()
                other = [(p, 1 - lb) for p, lb in labeled][::-1]
                r1, r2 = feed(pol, grid, split(other, 3)), feed(fresh, grid, split(other, 3))
                stats.executions += 1
                stats.state('reuse', cls.__name__, labeled)
                if r1 != r2 or pol.is_valid != fresh.is_valid or pol.predict(Q).tolist() != fresh.predict(Q).tolist():
                    stats.violation('reuse:' + cls.__name__, 'cleared model differs from a new one: {} then {}'.format(labeled, other), {'labeled': labeled})
        stats.outcome('reused')
