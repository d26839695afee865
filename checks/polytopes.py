"""
Enumeration of labeled sets and histories of polytope models.
"""
import itertools

import numpy as np

from checks.geometry import *

GRIDS = {
    # labeled points / query points, in integer coordinates
    'line5': ([(x,) for x in range(0, 10, 2)], [(x,) for x in range(-2, 12)]),
    'square3': ([(x, y) for x in (0, 2, 4) for y in (0, 2, 4)], [(x, y) for x in range(-2, 7) for y in range(-2, 7)]),
    'skew': ([(0, 0), (5, 1), (2, 6), (3, 2), (7, 7), (1, 3), (6, 0), (4, 9)], [(x, y) for x in range(-1, 10) for y in range(-1, 11)]),
    'cube': ([(x, y, z) for x in (0, 2) for y in (0, 2) for z in (0, 2)] + [(1, 1, 1)],
             [(x, y, z) for x in range(0, 4) for y in range(-1, 3) for z in range(0, 3)]),
}
TINY = 2 ** 30  # query points this close to the grid: far more than rounding errors, far less than any sensible tolerance
SCALE = {}
for _name, _dim in (('line5', 1), ('square3', 2)):
    _pts = [tuple(TINY * c for c in q) for q in GRIDS[_name][0]]
    GRIDS['near-' + _name] = (_pts, sorted({tuple(c + d for c, d in zip(q, off)) for q in itertools.product(range(0, 9 * TINY if _dim == 1 else 5 * TINY, TINY), repeat=_dim)
                                            for off in itertools.product((-1, 0, 1), repeat=_dim)}))
    SCALE['near-' + _name] = 1 / TINY


def real(grid, points):
    return arr(points) * SCALE.get(grid, 1)


def symmetries(points):
    """ permutations of the points by the symmetries of the square grid """
    res = []
    side = max(max(p) for p in points)
    maps = [lambda p: p, lambda p: (side - p[0], p[1]), lambda p: (p[0], side - p[1]), lambda p: (side - p[0], side - p[1])]
    maps += [lambda p, f=f: f(p)[::-1] for f in list(maps)]
    for f in maps:
        res.append([points.index(tuple(f(p))) for p in points])
    return res


def labeled_sets(grid, size, reduce=False, min_pos=0):
    """ all sets of labeled points (tuple of (point number, label)), possibly up to symmetry """
    points = GRIDS[grid][0]
    sym = symmetries(points) if reduce else None
    for pts in itertools.combinations(range(len(points)), size):
        for labels in itertools.product((0, 1), repeat=size):
            if sum(labels) < min_pos:
                continue
            s = tuple(zip(pts, labels))
            if sym and any(tuple(sorted((perm[p], lb) for p, lb in s)) < s for perm in sym):
                continue
            yield s


def split(seq, mask):
    """ batches of a sequence: bit k of mask says that a new batch starts after element k """
    res, cur = [], []
    for k, x in enumerate(seq):
        cur.append(x)
        if mask >> k & 1:
            res.append(cur)
            cur = []
    if cur:
        res.append(cur)
    return res


def feed(model, grid, batches):
    """ gives batches to a model until it becomes invalid; returns list of values returned by update """
    points = GRIDS[grid][0]
    out = []
    for batch in batches:
        X = real(grid, [points[p] for p, _ in batch])
        y = np.array([lb for _, lb in batch], dtype=float)
        out.append(bool(model.update(X, y)))
        if not model.is_valid:
            break
    return out


def pos_neg(grid, labeled, flipped=False):
    points = GRIDS[grid][0]
    one = 0 if flipped else 1
    pos = tuple(sorted(set(points[p] for p, lb in labeled if lb == one)))
    neg = tuple(sorted(set(points[p] for p, lb in labeled if lb != one)))
    return pos, neg


def two_batches(labeled, smallest):
    """ every division into a first and a second batch of at least that many points """
    res = []
    for mask in range(1, 2 ** len(labeled) - 1):
        first = [p for i, p in enumerate(labeled) if mask >> i & 1]
        second = [p for i, p in enumerate(labeled) if not mask >> i & 1]
        if len(first) >= smallest and len(second) >= 2:
            res.append(('two batches', [first, second]))
    return res


def deliveries(labeled):
    """ canonical ways to give a labeled set """
    asc = list(labeled)
    pos_first = sorted(asc, key=lambda t: (-t[1], t[0]))
    neg_first = sorted(asc, key=lambda t: (t[1], -t[0]))
    one = 2 ** max(0, len(asc) - 1) - 1
    res = [('one batch', split(asc, 0)), ('one by one', split(asc, one)), ('negatives first', split(neg_first, one)),
           ('positives first', split(pos_first, one)), ('halves', split(asc[::-1], 1 << (len(asc) // 2 - 1) if len(asc) > 1 else 0))]
    seen, out = [], []
    for name, d in res:
        if d not in seen:
            seen.append(d)
            out.append((name, d))
    return out
