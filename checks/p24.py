import copy
import itertools

import numpy as np

from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm
from checks.cones import *
from mc.choice import Chooser, controlled

PROPERTY = 'P24'
RULE = 'every version space given by integer constraints up to the size of the shard in 1 to 4 dimensions, every rounding strategy: the ' \
       'ellipsoid is observed after every single cut, and must enclose all points of a grid of the version space; the final one must be ' \
       'round enough; sequences of growing version spaces reuse ellipsoids, also with growing dimension; and every sequence of single cuts ' \
       'of a menu is compared with the rational update formula'
ASSUMPTIONS = ['constraints have small integer coordinates and the version space has an interior']

STRATEGIES = [{'strategy': 'default'}, {'strategy': 'opt'}, {'strategy': 'opt', 'z_cut': False}, {'strategy': 'opt', 'sphere_cuts': True}]


def configs(tier):
    big = tier == 'thorough'
    res = []
    for s in range(len(STRATEGIES)):
        for dim, values, rows, bound in ((1, [-2, -1, 1, 3], 3, 4), (2, [-1, 0, 1, 2], 3, 4), (3, [-1, 0, 1], 3, 2), (4, [-1, 1], 2, 2)) + (((3, [-1, 0, 1, 2], 3, 3), (4, [-1, 1], 3, 2)) if big else ()):
            res += [{'mode': 'fit', 'strategy': s, 'dim': dim, 'values': values, 'rows': rows, 'bound': bound, 'part': [k, 8]} for k in range(8)]
        res += [{'mode': 'chain', 'strategy': s, 'dim': 3, 'length': 4 if not big else 5, 'part': [k, 8]} for k in range(8)]
    for dim in (1, 2, 3):
        res.append({'mode': 'cuts', 'dim': dim, 'depth': 3 if not big else 4})
    return res


def encloses(elp, W):
    """ whether all points (rows of W) are inside of the ellipsoid """
    Z = np.linalg.solve(elp.L * np.sqrt(elp.D).reshape(1, -1), (W - elp.center).T)
    v = (Z * Z).sum(axis=0)
    return v.max() <= 1 + 1e-6, W[v.argmax()], v.max()


def points_of(rows, dim, bound):
    W = members(rows, dim, bound).astype(float)
    W = np.unique(np.round(W / np.linalg.norm(W, axis=1).reshape(-1, 1), 12), axis=0) if len(W) else W
    return np.vstack([W, 0.5 * W, np.zeros((1, dim))])


def sound(elp, W, stats, what, case):
    if not (np.all(np.isfinite(elp.center)) and np.all(np.isfinite(elp.L)) and np.all(elp.D > 0)):
        stats.violation('not-ellipsoid', '{}: center {}, L {}, D {}'.format(what, elp.center, elp.L, elp.D), case)
        return False
    ok, w, v = encloses(elp, W)
    if not ok:
        stats.violation('not-enclosed', '{}: point {} of the version space is outside ({})'.format(what, w, v), case)
        return False
    if elp.scale is not None and not np.allclose(elp.scale, elp.L @ np.diag(elp.D) @ elp.L.T, rtol=1e-6, atol=1e-9):
        stats.violation('factor', '{}: scale matrix {} differs from its factors {}'.format(what, elp.scale, elp.L @ np.diag(elp.D) @ elp.L.T), case)
        return False
    return True


def is_round(elp, rows, dim, strategy):
    """ the scaled-down ellipsoid satisfies all constraints """
    A = np.array(rows, dtype=float)
    P = elp.L @ np.diag(elp.D) @ elp.L.T
    if strategy == 'default':
        w, V = np.linalg.eigh(P)
        pts = [elp.center] + [elp.center + s * np.sqrt(w[i]) / (dim + 1) * V[:, i] for i in range(dim) for s in (1, -1)]
        return max((A @ p).max() for p in pts) < 1e-6 and max(p @ p for p in pts) < 1 + 1e-6
    support = A @ elp.center + np.sqrt(np.einsum('ij,jk,ik->i', A, P, A)) / ((dim + 1) * np.sqrt(dim))
    return support.max() <= 1e-9


def run(cfg, stats):
    globals()['run_' + cfg['mode']](cfg, stats)


def run_fit(cfg, stats):
    dim, options = cfg['dim'], STRATEGIES[cfg['strategy']]
    for k, rows in enumerate(cones(dim, cfg['values'], cfg['rows'])):
        if k % cfg['part'][1] != cfg['part'][0] or not solid(rows):
            continue
        case = {'rows': rows, 'options': options}
        stats.current = case
        stats.executions += 1
        body = BoundedPolyhedralCone(np.array(rows, dtype=float))
        W = points_of(rows, dim, cfg['bound'])
        # one iteration at a time
        step, elp, count = RoundingAlgorithm(max_iter=1, **options), None, 0
        while True:
            before = copy.deepcopy(elp) if elp is not None else Ellipsoid(dim)
            elp = step.fit(body, elp)
            stats.step()
            if not sound(elp, W, stats, 'after {} cuts'.format(count), case):
                break
            same = np.array_equal(before.center, elp.center) and np.array_equal(before.D, elp.D)
            if not same and np.prod(elp.D) >= np.prod(before.D):
                stats.violation('volume', 'cut {} does not reduce the volume: {}'.format(count, case), case)
                break
            if same:
                break
            count += 1
            if count > 2000:
                stats.violation('no-convergence', 'no convergence after {} cuts: {}'.format(count, case), case)
                break
        full = RoundingAlgorithm(**options).fit(body)
        if not np.allclose(full.center, elp.center, atol=1e-9):
            stats.violation('whole-fit', 'complete fit ends in {}, single steps in {}: {}'.format(full.center, elp.center, case), case)
        if not is_round(full, rows, dim, options['strategy']):
            stats.violation('not-round', 'scaled ellipsoid is not inside of the version space {}'.format(case), case)
        stats.state(case)
        stats.outcome('{} cuts'.format(min(count, 40) // 5 * 5))
        stats.sample({'constraints': rows, 'cuts': count})


def run_chain(cfg, stats):
    """ version spaces which grow by one constraint (and by one dimension) at a time, with cached ellipsoid """
    dim, options = cfg['dim'], STRATEGIES[cfg['strategy']]
    vs = [(1, 0, 0), (0, 1, 1), (-1, 1, 0), (1, 1, -1), (0, -1, 0), (1, 0, 1), (2, -1, 1)]
    for k, seq in enumerate(itertools.permutations(vs, cfg['length'])):
        if k % cfg['part'][1] != cfg['part'][0] or not solid(seq):
            continue
        case = {'constraints': seq, 'options': options}
        stats.current = case
        for growing in (False, True):
            stats.executions += 1
            sampler = HitAndRunSampler(warmup=1, thin=1, rounding=True, rounding_cache=True, rounding_options=options)
            for j in range(1, len(seq) + 1):
                # in the kernel case, constraints form a triangular matrix
                if growing:
                    d = j + 1
                    rows = [tuple((seq[i] + (1, -1))[:i + 1]) + (1,) + (0,) * (d - i - 2) for i in range(j)]
                else:
                    d, rows = dim, list(seq[:j])
                if not solid(rows):
                    break
                X = -np.array(rows, dtype=float)
                with controlled(Chooser(), fractions=(0.5,), directions=lambda n: [np.linspace(0.3, 1.1, n)]):
                    sampler.sample(X, np.ones(len(X)), 2)
                stats.step()
                elp = sampler.ellipsoid_cache
                if elp.dim != d or not sound(elp, points_of(rows, d, 3 if d < 4 else 2), stats, 'cached ellipsoid after {} updates (growing: {})'.format(j, growing), case):
                    break
                if not is_round(elp, rows, d, options['strategy']):
                    stats.violation('not-round-cached', 'cached ellipsoid after {} updates is not round (growing: {}): {}'.format(j, growing, case), case)
                stats.state(case, growing, j)
            stats.outcome('chain growing={}'.format(growing))
    stats.sample({'constraints': seq})


def run_cuts(cfg, stats):
    dim = cfg['dim']
    menu = [(b, g) for g in ([(1,), (-1,), (-3,)] if dim == 1 else [(1, 0), (-1, 2), (1, 1), (0, -3)] if dim == 2 else [(1, 0, 0), (-1, 2, 1), (0, 1, 1)]) for b in (0, 0.25, -0.1, 2)]

    def rec(seq, center, P):
        for b, g in menu:
            elp = Ellipsoid(dim, compute_scale_matrix=len(seq) % 2 == 0)
            for c in seq:
                elp.cut(c[0], np.array(c[1], dtype=float))
            stats.executions += 1
            stats.step()
            gv = np.array(g, dtype=float)
            gamma = np.sqrt(gv @ P @ gv)
            alpha = (gv @ center - b) / gamma
            case = {'cuts': seq + [(b, g)]}
            stats.current = case
            single, many = elp.compute_alpha_single(b, gv), elp.compute_alpha(np.array([gv, -gv]))
            if abs(single - alpha) > 1e-9 or np.abs(many - np.array([1, -1]) * (gv @ center) / gamma).max() > 1e-9:
                stats.violation('alpha', 'depth of the cut is {} / {}, expected {}: {}'.format(single, many, alpha, case), case)
            try:
                res = elp.cut(b, gv)
            except RuntimeError:
                stats.check(alpha >= 1 - 1e-9, 'cut-rejected', 'cut of depth {} rejected: {}'.format(alpha, case), case)
                stats.outcome('empty')
                continue
            if alpha >= 1 + 1e-9:
                stats.violation('cut-accepted', 'cut of depth {} accepted: {}'.format(alpha, case), case)
            c2, P2 = center, P
            deep = alpha > -1 / dim
            if deep and dim == 1:  # the part of the interval which is kept
                v = P @ gv / gamma
                c2, P2 = center - (1 + alpha) / 2 * v, P * ((1 - alpha) / 2) ** 2
            elif deep:
                tau, sigma, delta = (1 + dim * alpha) / (dim + 1), 2 * (1 + dim * alpha) / ((dim + 1) * (1 + alpha)), dim * dim / (dim * dim - 1) * (1 - alpha * alpha)
                v = P @ gv / gamma
                c2, P2 = center - tau * v, delta * (P - sigma * np.outer(v, v))
            if abs(alpha + 1 / dim) > 1e-9 and bool(res) != deep:
                stats.violation('cut-result', 'cut of depth {} returns {}: {}'.format(alpha, res, case), case)
            got = elp.L @ np.diag(elp.D) @ elp.L.T
            if not (np.allclose(elp.center, c2, atol=1e-9) and np.allclose(got, P2, atol=1e-9)) or (elp.scale is not None and not np.allclose(elp.scale, P2, atol=1e-9)):
                stats.violation('cut', 'ellipsoid after the cut: center {} matrix {} / {}, expected {} {}: {}'.format(elp.center, got, elp.scale, c2, P2, case), case)
            stats.state(case)
            stats.outcome('cut' if res else 'shallow')
            if res and len(seq) + 1 < cfg['depth']:
                rec(seq + [(b, g)], c2, P2)

    rec([], np.zeros(dim), np.eye(dim))
    stats.sample({'cuts': menu[:3]})
