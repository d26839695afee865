from aideme.active_learning.dsm.polytope import CategoricalPolytope, FlippedPolytope, MultiSetPolytope, PersistentPolytope, Polytope
from checks.polytopes import *

PROPERTY = 'P15'
RULE = 'every labeled set over a grid up to the size of the shard (up to symmetry of the grid): all orders and all divisions into batches are ' \
       'enumerated and must give the same validity and predictions; 5 points of the square (3 of them positive): all divisions into two ' \
       'batches of at least 3 and 2 points'
ASSUMPTIONS = ['points have small integer coordinates']


def configs(tier):
    big = tier == 'thorough'
    res = []
    for size in (2, 3, 4) if not big else (2, 3, 4, 5):
        res += [{'grid': 'line5', 'size': size, 'part': [k, 2]} for k in range(2)]
    for size in (2, 3, 4):
        res += [{'grid': 'square3', 'size': size, 'part': [k, 16 if size == 4 else 2], 'full': big} for k in range(16 if size == 4 else 2)]
    # 5 points: what was built from the first batch meets a batch of two or more
    res += [{'grid': 'square3', 'size': 5, 'part': [k, 16], 'two': 3 if not big else 1, 'min_pos': 3 if not big else 0} for k in range(16)]
    for kind in ('categorical', 'multiset'):
        for size in (2, 3, 4) if not big else (2, 3, 4, 5):
            parts = 1 if size < 4 else 8
            res += [{'grid': kind, 'size': size, 'part': [k, parts]} for k in range(parts)]
    return sorted(res, key=lambda c: -c['size'])


def discrete(cfg):
    """ models over sets: all multisets of labeled points """
    if cfg['grid'] == 'categorical':
        pts = [tuple(int(i == k) for i in range(3)) for k in range(3)]
        queries = pts
    else:
        pts = [p for p in itertools.product((0, 1), repeat=3)]
        queries = [p for p in pts if any(p)]
    items = [(p, lb) for p in pts for lb in (0, 1)]
    sets = itertools.combinations(items, cfg['size'])
    return sets, queries


def orders(labeled, full=True):
    n = len(labeled)
    for perm in itertools.permutations(labeled):
        masks = range(2 ** (n - 1)) if full else (0, 2 ** (n - 1) - 1, 1, 2 ** (n - 1) - 2)
        for mask in sorted(set(m for m in masks if m >= 0)):
            batches = split(perm, mask)
            # the order inside of a batch is a choice too: keep all of them
            yield batches


def run(cfg, stats):
    grid = cfg['grid']
    if grid in ('categorical', 'multiset'):
        sets, queries = discrete(cfg)
        models = [CategoricalPolytope if grid == 'categorical' else MultiSetPolytope]
        get = lambda p: p
    else:
        sets, queries = labeled_sets(grid, cfg['size'], reduce=grid == 'square3', min_pos=cfg.get('min_pos', 0)), GRIDS[grid][1]
        models = [Polytope, PersistentPolytope] if grid == 'line5' else [Polytope]
        get = lambda p: GRIDS[grid][0][p]
    Q = arr(queries)
    for k, labeled in enumerate(sets):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        for cls in models:
            reference = None
            ways = [[list(labeled)]] + [b for _, b in two_batches(labeled, cfg['two'])] if 'two' in cfg else \
                orders(labeled, cfg['size'] < 4 or cfg.get('full', True))
            for batches in ways:
                stats.current = {'batches': batches}
                pol = cls()
                for batch in batches:
                    pol.update(arr([get(p) for p, _ in batch]), np.array([lb for _, lb in batch], dtype=float))
                    stats.step()
                    if not pol.is_valid:
                        break
                result = (bool(pol.is_valid), pol.predict(Q).tolist())
                stats.executions += 1
                if reference is None:
                    reference, first = result, batches
                    stats.state(cls.__name__, grid, labeled, result)
                    stats.outcome('{} {}'.format(cls.__name__, 'valid' if result[0] else 'conflict'))
                elif result != reference:
                    diff = [(q, a, b) for q, a, b in zip(queries, reference[1], result[1]) if a != b]
                    stats.violation('order:' + cls.__name__, '{}: batches {} give valid={} but batches {} give valid={}; differences {}'.format(
                        cls.__name__, first, reference[0], batches, result[0], diff[:5]), {'batches': [first, batches]})
                    break
    stats.sample({'labeled': labeled, 'result': reference and reference[0]})
