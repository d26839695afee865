from aideme.active_learning.dsm.polytope import FlippedPolytope, Polytope
from checks.polytopes import *

PROPERTY = 'P13'
RULE = 'every labeled set over a grid of 5 to 9 points in 1, 2 and 3 dimensions up to the size of the shard, given in several orders and ' \
       'batches; for 4 and 5 points on the square also every division into two batches (5 points: at least 3 in the first one); all query points of a finer and larger grid, and points which are 1e-9 away from the labeled points and the middles between them, are compared with exact integer geometry'
ASSUMPTIONS = ['points have small integer coordinates, so rounding errors stay below the tolerance of the model',
               'regions of positive points contained in a hyperplane may be unknown instead of known']


def configs(tier):
    big = tier == 'thorough'
    res = []
    for size in range(1, 6):
        res.append({'grid': 'line5', 'size': size, 'part': [0, 1]})
    for size in range(1, 6 if not big else 7):
        parts = 1 if size < 4 else 8 if size == 4 else 16
        res += [{'grid': 'square3', 'size': size, 'part': [k, parts], 'reduce': size >= 4, 'min_pos': 3 if size == 5 and not big else 0, 'splits': (3 if size == 5 and not big else 1) if 4 <= size < 6 else 0} for k in range(parts)]
    for size in (1, 2, 3, 4):  # queries next to the borders of the regions
        res.append({'grid': 'near-line5', 'size': size, 'part': [0, 1]})
        parts = 1 if size < 3 else 4 if size == 3 else 12
        res += [{'grid': 'near-square3', 'size': size, 'part': [k, parts], 'reduce': True, 'min_pos': 2 if size == 4 and not big else 0} for k in range(parts)]
    for size in (3, 4) if not big else (3, 4, 5, 6):
        res += [{'grid': 'skew', 'size': size, 'part': [k, 8], 'min_pos': 2, 'splits': 2 if size == 5 else 0} for k in range(8)]
    for size in (5,) if not big else (5, 6, 7):
        res += [{'grid': 'cube', 'size': size, 'part': [k, 16], 'min_pos': 4 if not big else 3} for k in range(16)]
    return sorted(res, key=lambda c: -c['size'])


def run(cfg, stats):
    queries = GRIDS[cfg['grid']][1]
    Q = real(cfg['grid'], queries)
    for k, labeled in enumerate(labeled_sets(cfg['grid'], cfg['size'], cfg.get('reduce', False), cfg.get('min_pos', 0))):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        ways = deliveries(labeled)
        if cfg['grid'] == 'cube':
            ways = ways[:2] if k % 2 else ways[:1] + ways[2:3]
        if cfg.get('splits'):
            ways = list(ways) + two_batches(labeled, cfg['splits'])
        for name, batches in ways:
            for cls in (Polytope, FlippedPolytope):
                flipped = cls is FlippedPolytope
                if flipped and name != 'one by one':
                    continue
                stats.current = {'labeled': labeled, 'batches': batches}
                pol = cls()
                feed(pol, cfg['grid'], batches)
                stats.executions += 1
                stats.step(len(batches))
                if not pol.is_valid:
                    stats.outcome('conflict')  # decided by P14
                    continue
                pos, neg = pos_neg(cfg['grid'], labeled, flipped)
                if conflict(pos, neg)[0]:
                    stats.outcome('flat conflict')
                    continue
                pred = pol.predict(Q)
                if pred.shape != (len(queries),):
                    stats.violation('shape', 'predictions have shape {}'.format(pred.shape))
                for x, p in zip(queries, pred.tolist()):
                    p = 1 - p if flipped else p
                    want = expected(x, pos, neg)
                    if p not in want:
                        stats.violation('{}:{}-for-{}'.format(cls.__name__, p, max(want)), '{} predicts {} for {}, expected {}\npositive: {}\nnegative: {}\nbatches: {} ({})'.format(
                            cls.__name__, p, x, sorted(want), pos, neg, batches, name), {'batches': batches})
                        break
                stats.state(cfg['grid'], labeled, cls.__name__, pred.tolist())
                stats.outcome('built' if spans(pos) else 'flat')
        if k == 0:
            stats.sample({'grid': cfg['grid'], 'labeled': labeled, 'batches': batches, 'predictions': pred.tolist()[:12]})
