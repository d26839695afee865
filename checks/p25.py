import itertools
import math
from fractions import Fraction

import numpy as np

from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
from checks.cones import *

PROPERTY = 'P25'
RULE = 'every set of integer constraints up to the size of the shard in 2 to 4 dimensions: membership, interior point, separation of every ' \
       'point of a grid and intersection with every line of a grid are compared with exact arithmetic; interior points also for constraints of ' \
       'very different lengths (every choice of constraints scaled by 2^-10 or 2^-20) and for pairs of constraints which are almost (anti)parallel'
ASSUMPTIONS = ['constraints have small integer coordinates, or differ from them by powers of two', 'no constraint is the zero vector']


def configs(tier):
    big = tier == 'thorough'
    res = []
    res += [{'mode': 'close', 'dim': dim, 'part': [k, 4]} for dim in (2, 3) for k in range(4)]
    res += [{'mode': 'narrow', 'dim': dim, 'part': [k, 4]} for dim in (2, 3) for k in range(4)]
    res += [{'mode': 'interior', 'dim': 2, 'values': [-2, -1, 0, 1, 2], 'rows': 3, 'part': [k, 8]} for k in range(8)]
    for mode in ('interior', 'separate', 'lines'):
        res.append({'mode': mode, 'dim': 2, 'values': [-1, 0, 1, 2], 'rows': 2, 'part': [0, 1]})
        res += [{'mode': mode, 'dim': 2, 'values': [-2, -1, 0, 1, 2] if big else [-1, 0, 1], 'rows': 4 if mode == 'interior' else 3, 'part': [k, 8]} for k in range(8)]
        res += [{'mode': mode, 'dim': 3, 'values': [-1, 0, 1], 'rows': 4 if big else 3, 'part': [k, 16]} for k in range(16)]
        if mode == 'interior' or big:
            res += [{'mode': mode, 'dim': 4, 'values': [-1, 0, 1] if big else [-1, 1], 'rows': 2 if big else 3, 'part': [k, 8]} for k in range(8)]
    return res


def close(dim):
    """ pairs of constraints, the normals of which are almost orthogonal to an axis or almost (anti)parallel """
    base = [r for r in vectors(dim, (-1, 0, 1))]
    for r in base:
        for i in range(dim):
            for e in CLOSE:
                s = tuple(v + (e if k == i else 0) for k, v in enumerate(r))
                yield (s,)
                yield (r, s)
                for t in base if dim == 2 else base[::5]:
                    if t != r:
                        yield (s, t)


def narrow(dim):
    """ constraints for which the best margin is tiny """
    yield from close(dim)
    for rows in cones(dim, (-1, 0, 1), 3 if dim == 2 else 2):
        for e in (10, 20):
            for scaled in itertools.product((0, 1), repeat=len(rows)):
                if any(scaled):
                    yield tuple(tuple(Fraction(v, 2 ** (e * k)) for v in r) for r, k in zip(rows, scaled))


CLOSE = [Fraction(sign, 2 ** k) for k in (10, 14, 20) for sign in (1, -1)]


def run(cfg, stats):
    dim = cfg['dim']
    if cfg['mode'] == 'close':
        for k, rows in enumerate(close(dim)):
            if k % cfg['part'][1] == cfg['part'][0]:
                stats.current = {'rows': [[float(v) for v in r] for r in rows]}
                body = BoundedPolyhedralCone(np.array([[float(v) for v in r] for r in rows]))
                run_lines(body, rows, dim, stats, few=True)
                stats.state('close', rows)
        stats.sample(stats.current)
        return
    if cfg['mode'] == 'narrow':
        for k, rows in enumerate(narrow(dim)):
            if k % cfg['part'][1] == cfg['part'][0]:
                values = [[float(v) for v in r] for r in rows]  # exact
                stats.current = {'rows': values}
                run_interior(BoundedPolyhedralCone(np.array(values)), values, dim, stats, solid(rows))
                stats.state('narrow', values)
        stats.sample(stats.current)
        return
    for k, rows in enumerate(cones(dim, cfg['values'], cfg['rows'])):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        stats.current = {'rows': rows}
        body = BoundedPolyhedralCone(np.array(rows, dtype=float))
        stats.check(body.dim == dim, 'dim', 'dimension is {}'.format(body.dim))
        globals()['run_' + cfg['mode']](body, rows, dim, stats)
        stats.state(cfg['mode'], rows)
        stats.sample({'constraints': rows})


def run_interior(body, rows, dim, stats, ok=None):
    stats.executions += 1
    stats.step()
    ok = solid(rows) if ok is None else ok
    try:
        x = body.get_interior_point()
    except RuntimeError:
        stats.outcome('no interior')
        return stats.check(not ok, 'no-interior-point', 'no interior point found for {}'.format(rows), {'rows': rows})
    stats.outcome('interior point')
    if not ok:
        return stats.violation('interior-of-empty', 'interior point {} of the degenerate version space {}'.format(x, rows), {'rows': rows})
    if np.shape(x) != (dim,) or not (np.array(rows) @ x < 0).all() or not 0 < x @ x < 1:
        stats.violation('interior-point', 'interior point {} of {} is not inside: {}'.format(x, rows, np.array(rows) @ x), {'rows': rows})


def run_separate(body, rows, dim, stats):
    g4 = [(-4, -1, 0, 1, 3, 4), (-2, 0, 1, 4), (-1, 0, 2)][dim - 2]
    pts = list(itertools.product(g4, repeat=dim))
    P = np.array(pts) / 4.
    inside = body.is_inside_polytope(P)
    want = [max(sum(a * p for a, p in zip(r, pt)) for r in rows) < 0 for pt in pts]
    stats.check(np.asarray(inside).tolist() == want, 'membership', lambda: 'wrong membership for {}: {}'.format(
        rows, [(pt, a, b) for pt, a, b in zip(pts, inside, want) if a != b][:4]), {'rows': rows})
    inner = [w / np.linalg.norm(w) for w in members(rows, dim, 3 if dim == 2 else 2).astype(float)] + [np.zeros(dim)]
    for pt, p in zip(pts, P):
        stats.executions += 1
        stats.step()
        a = bool(body.is_inside_polytope(p))
        w = max(sum(x * y for x, y in zip(r, pt)) for r in rows)
        stats.check(a == (w < 0), 'membership-single', 'membership of {} in {} is {}'.format(p, rows, a), {'rows': rows})
        out = w >= 0 or sum(v * v for v in pt) >= 16
        res = body.get_separating_oracle(p)
        stats.outcome('separated' if out else 'inside')
        if (res is not None) != out:
            return stats.violation('separation-exists', 'separation of {} from {} is {}'.format(p, rows, res), {'rows': rows, 'point': pt})
        if res is None:
            continue
        b, g = res
        g = np.asarray(g, dtype=float)
        if np.dot(g, p) < b - 1e-12:
            return stats.violation('point-not-separated', 'hyperplane {} does not separate {} from {}'.format(res, p, rows), {'rows': rows, 'point': pt})
        bad = [w for w in inner if np.dot(g, w) > b + 1e-9]
        if bad or not g.any():
            return stats.violation('body-cut', 'hyperplane {} of {} cuts {} off the version space {}'.format(res, p, bad[:2], rows), {'rows': rows, 'point': pt})


def run_lines(body, rows, dim, stats, few=False):
    centers = [w for w in itertools.product(range(-2, 3), repeat=dim) if all(sum(a * x for a, x in zip(r, w)) < 0 for r in rows)] if few else \
        members(rows, dim, 2, strict=True).tolist()
    scale = 8  # centers are w / 8
    centers = [c for c in centers if sum(v * v for v in c) < scale * scale][:(3 if few else 6) if dim < 4 else 3]
    dirs = vectors(dim, (-2, -1, 0, 1, 3)) if dim == 2 and not few else vectors(dim, (-1, 0, 1)) if few else vectors(dim, (-1, 0, 2))
    for c in centers:
        for d in dirs:
            stats.executions += 1
            stats.step()
            t1, t2 = body.intersection(np.array(c) / scale, np.array(d, dtype=float))
            # exact interval of the polyhedral cone, then of the ball
            lo, hi = -math.inf, math.inf
            for r in rows:
                num = -Fraction(sum(a * x for a, x in zip(r, c)), scale)
                den = sum(a * x for a, x in zip(r, d))
                if den > 0:
                    hi = min(hi, num / den)
                elif den < 0:
                    lo = max(lo, num / den)
            a, b, e = sum(x * x for x in d), sum(x * y for x, y in zip(c, d)) / scale, sum(x * x for x in c) / scale ** 2 - 1
            s = math.sqrt(b * b - a * e)
            lo, hi = max(float(lo), (-b - s) / a), min(float(hi), (-b + s) / a)
            if not (abs(t1 - lo) < 1e-9 and abs(t2 - hi) < 1e-9):
                return stats.violation('intersection', 'line from {} in direction {} meets {} in {}, expected {}'.format(np.array(c) / scale, d, rows, (t1, t2), (lo, hi)),
                                       {'rows': rows, 'center': c, 'direction': d})
    stats.outcome('{} lines'.format(len(centers) * len(dirs)))
