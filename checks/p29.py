import itertools
import math

import numpy as np

from aideme.active_learning.factorization.penalty import *

PROPERTY = 'P29'
RULE = 'for every penalty of the menu (strengths, groups), every matrix over the alphabet and every step size: loss against its formula, ' \
       'gradient against the derivative (or the subdifferential where there is none), proximal operator against the optimality condition ' \
       'of its minimization, and the sub-gradient test against the subdifferential for a menu of vectors inside, on the border and outside'
ASSUMPTIONS = ['groups are a division of the features', 'at most 2 rows and 4 columns']

ALPHABET = [-3.0, -0.4, 0.0, 0.25, 2.0]
GROUPS = {1: [[[0]]], 2: [[[0, 1]], [[0], [1]], [[1], [0]]], 3: [[[0, 2], [1]], [[0], [1, 2]], [[2, 1, 0]]], 4: [[[0, 3], [1, 2]], [[1], [3], [0, 2]]]}


def configs(tier):
    big = tier == 'thorough'
    res = []
    for rows, cols in ((1, 1), (1, 2), (2, 2), (1, 3), (2, 1), (1, 4)) + (((2, 3), (3, 2)) if big else ((2, 3),)):
        stride = 1 if rows * cols <= 4 else 11 if rows * cols == 6 and not big else 1
        for kind in ('l1', 'l2', 'interaction', 'huber'):
            for lam in (0.5, 1e-3, 4.0):
                res.append({'kind': kind, 'rows': rows, 'cols': cols, 'lam': lam, 'groups': None, 'stride': stride})
        for kind in ('l2sqrt', 'sparse'):
            for groups in [None] + GROUPS[cols]:
                for lam in ((0.5, 0.3), (0.05, 2.0), (1.5, 1e-3)):
                    res.append({'kind': kind, 'rows': rows, 'cols': cols, 'lam': lam, 'groups': groups, 'stride': stride})
    return sorted(res, key=lambda c: -c['rows'] * c['cols'])


def make(cfg):
    lam = cfg['lam']
    if cfg['kind'] == 'l1':
        return L1Penalty(lam)
    if cfg['kind'] == 'l2':
        return L2Penalty(lam)
    if cfg['kind'] == 'interaction':
        return InteractionPenalty(lam)
    if cfg['kind'] == 'huber':
        return HuberPenalty(lam, delta=0.3)
    if cfg['kind'] == 'l2sqrt':
        return L2SqrtPenalty(lam[0], cfg['groups'])
    return SparseGroupLassoPenalty(lam[0], lam[1], cfg['groups'])


def norm(v):
    return math.sqrt(math.fsum(t * t for t in v))


def parts(cfg):
    """ the penalty as a sum of strength * norm of columns, per row """
    D = cfg['cols']
    if cfg['kind'] == 'l1':
        return [(cfg['lam'], [d]) for d in range(D)]
    if cfg['kind'] == 'l2sqrt':
        return [(cfg['lam'][0], g) for g in (cfg['groups'] or [list(range(D))])]
    return [(cfg['lam'][0], g) for g in (cfg['groups'] or [[d] for d in range(D)])] + [(cfg['lam'][1], list(range(D)))]


def loss(cfg, x):
    if cfg['kind'] == 'l2':
        return cfg['lam'] * math.fsum(v * v for r in x for v in r)
    if cfg['kind'] == 'huber':  # quadratic up to 0.3, linear with slope lam afterwards
        return cfg['lam'] / 0.3 * math.fsum(v * v / 2 if abs(v) <= 0.3 else 0.3 * (abs(v) - 0.15) for r in x for v in r)
    if cfg['kind'] == 'interaction':
        return cfg['lam'] * math.fsum((x[k][d] * x[l][d]) ** 2 for k in range(len(x)) for l in range(k) for d in range(len(x[0])))
    return math.fsum(lam * norm([r[d] for d in g]) for r in x for lam, g in parts(cfg))


def smooth_gradient(cfg, x):
    if cfg['kind'] == 'l2':
        return [[2 * cfg['lam'] * v for v in r] for r in x]
    if cfg['kind'] == 'huber':
        return [[cfg['lam'] / 0.3 * max(-0.3, min(0.3, v)) for v in r] for r in x]
    return [[cfg['lam'] * 2 * v * math.fsum(x[l][d] ** 2 for l in range(len(x)) if l != k) for d, v in enumerate(r)] for k, r in enumerate(x)]


def distance(cfg, v, x):
    """ how far v is from the subdifferential at x (only its sign of being zero, positive matters), for sums of norms, row by row """
    if cfg['kind'] in ('l2', 'huber', 'interaction'):
        return max(abs(a - b) for r, s in zip(v, smooth_gradient(cfg, x)) for a, b in zip(r, s))
    worst = 0.
    for r, s in zip(v, x):
        rest = list(r)
        free = []  # parts which are not differentiable at this row
        for lam, g in parts(cfg):
            n = norm([s[d] for d in g])
            if n > 0:
                for d in g:
                    rest[d] -= lam * s[d] / n
            else:
                free.append((lam, g))
        # the rest must be a sum of vectors of norm at most lam, each one supported in its group; groups are nested: inner ones first
        free.sort(key=lambda p: len(p[1]))
        for lam, g in free:
            n = norm([rest[d] for d in g])
            for d in g:
                rest[d] = 0. if n <= lam else rest[d] * (1 - lam / n)
        worst = max(worst, norm(rest))
    return worst


def run(cfg, stats):
    R, D = cfg['rows'], cfg['cols']
    pen = make(cfg)
    for entries in itertools.islice(itertools.product(ALPHABET, repeat=R * D), 0, None, cfg['stride']):
        x = np.array(entries).reshape(R, D)
        xl = x.tolist()
        case = {'config': cfg, 'x': xl}
        stats.current = case
        stats.executions += 1
        stats.state(cfg, entries)
        keep = x.copy()

        got, want = pen.loss(x), loss(cfg, xl)
        stats.step()
        if not abs(got - want) <= 1e-9 * max(1, want):
            stats.violation('loss:' + cfg['kind'], 'loss is {}, expected {}: {}'.format(got, want, case), case)

        g = pen.grad(x) + np.zeros_like(x)
        if g.shape != x.shape or not np.all(np.isfinite(g)) or distance(cfg, g.tolist(), xl) > 1e-9:
            stats.violation('gradient:' + cfg['kind'], 'gradient {} is not in the subdifferential: {}'.format(g, case), case)
            continue

        if cfg['kind'] in ('l1', 'l2', 'l2sqrt', 'sparse'):
            for eta in (0.1, 1.0, 3.0):
                z = pen.proximal(x, eta)
                stats.step()
                if z.shape != x.shape or not np.all(np.isfinite(z)):
                    stats.violation('proximal:' + cfg['kind'], 'proximal({}) is {}: {}'.format(eta, z, case), case)
                    continue
                z = np.where(np.abs(z) < 1e-14, 0., z)  # norms of tiny rows are meaningless
                v = (x - z) / eta
                if distance(cfg, v.tolist(), z.tolist()) > 1e-7:
                    stats.violation('proximal:' + cfg['kind'], 'proximal({}) is {}, which is not the minimizer: {}'.format(eta, z, case), case)
                stats.outcome('{} zeros'.format(int((z == 0).sum())))

            # sub-gradient test: the gradient itself, shifted by vectors of a menu
            for shift in itertools.islice(itertools.product((0., 0.2, -0.7, 3.0), repeat=R * D), 0, None, 1 if R * D <= 2 else 5 if R * D <= 3 else 37 if R * D <= 4 else 517):
                v = g + np.array(shift).reshape(R, D)
                dist = distance(cfg, v.tolist(), xl)
                stats.step()
                if 1e-9 < dist < 1e-3:
                    continue
                got = bool(pen.is_subgradient(v, x, 1e-6))
                if got != (dist <= 1e-9):
                    stats.violation('subgradient:' + cfg['kind'], 'is_subgradient({}) is {}, distance to the subdifferential is {}: {}'.format(v, got, dist, case), case)
        if not np.array_equal(x, keep):
            stats.violation('argument-modified', 'argument was changed: {}'.format(case), case)
        stats.sample(dict(case, loss=want))
    regroup(cfg, stats)


def regroup(cfg, stats):
    """ changing groups or strength afterwards is the same as creating the penalty with them """
    if cfg['kind'] not in ('l2sqrt', 'sparse') or cfg['rows'] != 1:
        return
    x = np.array([[2.0, -0.4, 0.25, -3.0][:cfg['cols']]])
    for path in itertools.product([None] + GROUPS[cfg['cols']], repeat=2):
        pen = make(cfg)
        for groups in path:
            pen.groups = groups
        ref = make(dict(cfg, groups=path[-1]))
        stats.executions += 1
        stats.step(3)
        if pen.loss(x) != ref.loss(x) or not np.array_equal(pen.grad(x), ref.grad(x)) or not np.array_equal(pen.proximal(x, 0.7), ref.proximal(x, 0.7)):
            stats.violation('regroup', 'penalty differs after changing its groups to {}: {}'.format(path, cfg), {'path': path})
        if cfg['kind'] == 'sparse' and pen.groups != path[-1]:
            stats.violation('groups', 'groups are {} after setting {}'.format(pen.groups, path), {'path': path})
