import itertools
import math

import numpy as np

from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
from aideme.active_learning.version_space.hit_and_run.rounding import SphericalGradientDescent, alpha_on_sphere

PROPERTY = 'P44'
RULE = 'for every ellipsoid reached by up to 2 (thorough: 3) cuts of a menu of hyperplanes in 2 and 3 dimensions: the objective and its gradient at all unit vectors of a ' \
       'grid are compared with their formulas; for these objectives and all linear and quadratic ones over a menu, every starting point of a grid and all ' \
       'combinations of retraction, step size, tolerances, threshold and iteration limit: every iterate (seen through growing iteration limits) and the final result ' \
       'are compared with a reference descent, line searches with stationarity along the curve'
ASSUMPTIONS = ['decisions closer than 1e-9 to a tolerance are not judged', 'tolerance 1e-7 for numbers, 1e-4 for line searches']

NORMALS = {2: [(1, 0), (-1, 0), (0, 1), (-1, 1), (2, -1)], 3: [(1, 0, 0), (0, -1, 1), (-1, 1, 1), (0, 0, 2)]}
CUTS = {dim: [(b, g) for b in (0, 0.5) for g in NORMALS[dim]] for dim in NORMALS}
STEPS = (0.1, 0.7, None)
SETTINGS = [{}, {'grad_norm_threshold': 0.3}, {'rel_tol': 0.05}, {'grad_norm_threshold': 0.05, 'rel_tol': 0.3}]


def configs(tier):
    big = tier == 'thorough'
    res = []
    for dim in (2, 3):
        for part in range(4):
            res.append({'mode': 'objective', 'dim': dim, 'depth': 2 if not big else 3, 'part': [part, 4]})
        for retraction in ('sphere', 'project'):
            for step in STEPS:
                for setting in range(len(SETTINGS)):
                    res.append({'mode': 'descent', 'dim': dim, 'retraction': retraction, 'step': step, 'setting': setting, 'limit': 5 if not big else 10, 'big': big})
    return res


def ellipsoids(dim, depth):
    """ all ellipsoids reached by sequences of cuts, with the cuts """
    for d in range(depth + 1):
        for cuts in itertools.product(CUTS[dim], repeat=d):
            elp = Ellipsoid(dim)
            try:
                for b, g in cuts:
                    elp.cut(b, np.array(g, dtype=float))
            except RuntimeError:  # nothing is left
                continue
            yield cuts, elp


def grid(dim):
    return [np.array(v, dtype=float) for v in itertools.product((-1, 0, 2), repeat=dim) if any(v)]


class Cut:
    """ relative depth of the hyperplane which touches the unit sphere at x """
    def __init__(self, elp):
        self.z, self.P = elp.center.copy(), elp.L @ np.diag(elp.D) @ elp.L.T

    def fun(self, x):
        return (1 - self.z @ x) / math.sqrt(x @ self.P @ x)

    def grad(self, x):
        s = math.sqrt(x @ self.P @ x)
        g = -self.z / s - (1 - self.z @ x) / s ** 3 * (self.P @ x)
        return g - (g @ x) * x


class Linear:
    def __init__(self, c):
        self.c = np.array(c, dtype=float)

    def fun(self, x):
        return float(self.c @ x)

    def grad(self, x):
        return self.c - (self.c @ x) * x


class Quadratic:
    def __init__(self, Q):
        self.Q = np.array(Q, dtype=float)

    def fun(self, x):
        return float(x @ self.Q @ x) + 1

    def grad(self, x):
        g = 2 * self.Q @ x
        return g - (g @ x) * x


def close(a, b, tol=1e-7):
    return np.allclose(a, b, rtol=tol, atol=tol)


def run(cfg, stats):
    globals()['run_' + cfg['mode']](cfg, stats)


def run_objective(cfg, stats):
    units = [v / np.linalg.norm(v) for v in grid(cfg['dim'])]
    for k, (cuts, elp) in enumerate(ellipsoids(cfg['dim'], cfg['depth'])):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        stats.executions += 1
        fun, grad = alpha_on_sphere(elp)
        want = Cut(elp)
        for x in units:
            stats.step()
            stats.state(cuts, x.tolist())
            given = x.copy()
            a, g = fun(given), grad(given)
            case = {'cuts': cuts, 'x': x.tolist()}
            stats.check(given.tolist() == x.tolist(), 'argument', 'the argument was modified', case)
            stats.check(close(a, want.fun(x)), 'objective', 'objective at {} after cuts {} is {}, expected {}'.format(x, cuts, a, want.fun(x)), case)
            stats.check(close(g, want.grad(x)), 'gradient', 'gradient at {} after cuts {} is {}, expected {}'.format(x, cuts, g, want.grad(x)), case)
        stats.outcome('{} cuts'.format(len(cuts)))
        stats.sample({'cuts': cuts})


def objectives(dim, big):
    for cuts, elp in ellipsoids(dim, 1):
        if cuts:
            yield 'cut {}'.format(cuts), alpha_on_sphere(elp), Cut(elp)
    for c in ([(1, 0), (-1, 2)] if dim == 2 else [(1, 0, 0), (2, -1, 1)]):
        o = Linear(c)
        yield 'linear {}'.format(c), (o.fun, o.grad), o
    for Q in ([[[2, 0], [0, 1]], [[1, 1], [1, 3]]] if dim == 2 else [np.diag([3, 2, 1]).tolist(), [[2, 1, 0], [1, 2, 1], [0, 1, 4]]]):
        o = Quadratic(Q)
        yield 'quadratic {}'.format(Q), (o.fun, o.grad), o


def curve(retraction, x, g, t):
    if retraction == 'sphere':
        return math.cos(t) * x - math.sin(t) * g / np.linalg.norm(g)
    y = x - t * g
    return y / np.linalg.norm(y)


def position(retraction, x, g, y):
    """ parameter of the point y on the curve, None if it is not on it """
    n = np.linalg.norm(g)
    a, b = y @ x, -(y @ g) / n
    if not close(a * x - b * g / n, y, 1e-6):
        return None
    if retraction == 'sphere':
        return math.atan2(b, a)
    return None if a < -1e-9 else b / (max(a, 1e-12) * n)


def run_descent(cfg, stats):
    settings = SETTINGS[cfg['setting']]
    gth, rtol = settings.get('grad_norm_threshold', 1e-7), settings.get('rel_tol', 1e-7)
    for name, (fun, grad), o in objectives(cfg['dim'], cfg['big']):
        for x0 in grid(cfg['dim'])[::1 if cfg['big'] or cfg['dim'] == 2 else 3]:
            x = x0 / np.linalg.norm(x0)
            for threshold in (-np.inf, o.fun(x) - 0.2, o.fun(x) + 1):
                descend(cfg, stats, settings, gth, rtol, name, fun, grad, o, x0, threshold)


def descend(cfg, stats, settings, gth, rtol, name, fun, grad, o, x0, threshold):
    case = {'objective': name, 'x0': x0.tolist(), 'threshold': threshold}
    what = '{} from {} with {} {} {}, threshold {}'.format(name, x0, cfg['retraction'], cfg['step'], settings, threshold)

    def result(limit):
        if limit % 2:  # the same optimizer is used again
            opt = shared.setdefault(limit, SphericalGradientDescent(cfg['retraction'], max_iter=limit, step_size=cfg['step'], **settings))
        else:
            opt = SphericalGradientDescent(retraction=cfg['retraction'].upper(), max_iter=limit, step_size=cfg['step'], **settings)
        stats.step()
        stats.executions += 1
        given = x0.copy()
        r = opt.optimize(given, fun, grad) if threshold == -np.inf else opt.optimize(given, fun, grad, func_threshold=threshold)
        stats.check(given.tolist() == x0.tolist(), 'argument', '{}: starting point was modified'.format(what), case)
        return r

    shared = {}
    x, f, g = None, None, None
    state, done = x0 / np.linalg.norm(x0), None
    f, g = o.fun(state), o.grad(state)
    near = [abs(np.linalg.norm(g) - gth) < 1e-9]
    if np.linalg.norm(g) <= gth:
        done = (0, True)

    for limit in range(1, cfg['limit'] + 1):
        if any(near):
            stats.outcome('too close to call')
            return
        r = result(limit)
        if done is None:
            # one more step from the last iterate
            nxt = r.x
            if not stats.check(r.iters == limit, 'iterations', '{}: {} iterations instead of {}'.format(what, r.iters, limit), case):
                return
            if cfg['step'] is not None:
                want = curve(cfg['retraction'], state, g, cfg['step'])
                if not stats.check(close(nxt, want), 'iterate', '{}: iterate {} is {}, expected {}'.format(what, limit, nxt, want), case):
                    return
            else:
                t = position(cfg['retraction'], state, g, nxt)
                if not stats.check(t is not None, 'curve', '{}: iterate {} is {}, which is not on the curve from {}'.format(what, limit, nxt, state), case):
                    return
                v = o.fun(nxt / np.linalg.norm(nxt))
                for h in (0.05, -0.05, 0.01, -0.01):
                    w = o.fun(curve(cfg['retraction'], state, g, t + h * max(1, abs(t))))
                    if not stats.check(w >= v - 1e-4, 'line-search', '{}: iterate {} has objective {}, but {} is nearby'.format(what, limit, v, w), case):
                        return
            prev = f
            state = nxt
            f, g = o.fun(state), o.grad(state)
            n = np.linalg.norm(g)
            near = [abs(f - threshold) < 1e-9, abs(n - gth) < 1e-9, abs((prev - f) - rtol * prev) < 1e-9]
            hit = f < threshold
            if n <= gth or prev - f < rtol * prev:
                done_if = True
            else:
                done_if = False
            want_converged = False  # limit or threshold come first
            if hit:
                done = (limit, False)
            elif done_if:
                done = (limit, True)  # if there is no limit
            want_iters = limit
        else:
            want_iters, want_converged = done
            if want_iters == limit:
                want_converged = False
        ok = stats.check(abs(np.linalg.norm(r.x) - 1) < 1e-5, 'sphere', '{}: {} is not on the sphere'.format(what, r.x), case)
        ok = ok and stats.check(close(r.x, state), 'iterate', '{}: result {} with limit {}, expected {}'.format(what, r.x, limit, state), case)
        ok = ok and stats.check(close(r.fun, f), 'value', '{}: value {} at {}, expected {}'.format(what, r.fun, r.x, f), case)
        ok = ok and stats.check(close(r.grad, g) and close(r.grad_norm, np.linalg.norm(g)), 'gradient', '{}: gradient {} at {}, expected {}'.format(what, r.grad, r.x, g), case)
        ok = ok and stats.check(r.iters == want_iters, 'iterations', '{}: {} iterations with limit {}, expected {}'.format(what, r.iters, limit, want_iters), case)
        ok = ok and stats.check(bool(r.converged) == want_converged, 'converged', '{}: converged is {} with limit {} after {} iterations'.format(
            what, r.converged, limit, r.iters), case)
        stats.state(cfg, case, limit)
        if not ok:
            return
    stats.outcome('threshold' if done and not done[1] else 'tolerance' if done else 'limit')
    stats.sample(case)
