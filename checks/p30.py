import itertools
import math

import numpy as np
from scipy.optimize import OptimizeResult

from aideme.active_learning.factorization.active_learning import SimplifiedSwapLearner
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import *
from aideme.active_learning.factorization.penalty import L1Penalty, L2Penalty, SparseGroupLassoPenalty
from mc.choice import controlled, explore

PROPERTY = 'P30'
RULE = 'for every optimizer and setting of the menu (momentum, step size rule, tolerances, iteration limit, penalty), all quadratic functions ' \
       'and starting points of a grid, twice with the same object: every iterate is compared with the definition of the algorithm and the ' \
       'end with the stopping rule; all sequences of outcomes of up to 3 retries'
ASSUMPTIONS = ['quadratic functions of 1 or 2 variables', 'at most 7 iterations for the comparison of iterates']

STEPS = [
    {'step_size': 0.3}, {'step_size': 0.8, 'adapt_step_size': True, 'power': 1.}, {'step_size': 0.5, 'adapt_step_size': True, 'power': 0.5, 'adapt_every': 2},
    {'step_size': 0.5, 'adapt_step_size': True, 'exp_decay': 0.5, 'adapt_every': 3}, {'step_size': 0.5, 'adapt_step_size': True, 'exp_decay': 0.9},
]
STOPS = [{'max_iter': 1}, {'max_iter': 5, 'gtol': 0., 'rel_tol': 0.}, {'max_iter': 7, 'gtol': 0.5}, {'max_iter': 6, 'gtol': 0., 'rel_tol': 0.25}, {'max_iter': 7, 'gtol': 2.}]
LINE = {'step_size': None}


def configs(tier):
    res = []
    kinds = {'gd': [{'momentum': m} for m in (0., 0.9, 0.4)], 'adam': [{}, {'beta1': 0.5, 'beta2': 0.9, 'epsilon': 0.1}], 'noisy': [{}],
             'pgd': [{'penalty': p} for p in ('l1', 'l2', 'sparse', None)], 'fista': [{'penalty': p} for p in ('l1', 'l2', 'sparse', None)]}
    for kind, menu in kinds.items():
        for opt in menu:
            for step in STEPS + ([LINE] if kind in ('gd', 'noisy') else []):
                for stop in STOPS:
                    res.append({'kind': kind, 'options': opt, 'step': step, 'stop': stop, 'big': tier == 'thorough'})
    res += [{'mode': m, 'big': tier == 'thorough'} for m in ('bfgs', 'retries', 'epochs', 'optimum')]
    return res


def penalty(name):
    return {'l1': lambda: L1Penalty(0.6), 'l2': lambda: L2Penalty(0.4), 'sparse': lambda: SparseGroupLassoPenalty(0.2, 0.5)}[name]()


def make(cfg, callback):
    options = dict(cfg['step'], **cfg['stop'], callback=callback)
    kind, extra = cfg['kind'], dict(cfg['options'])
    if kind == 'gd':
        return GradientDescent(**extra, **options)
    if kind == 'adam':
        return Adam(**extra, **options)
    if kind == 'noisy':
        return NoisyGradientDescent(**options)
    pen = {'penalty_term': penalty(extra['penalty'])} if extra['penalty'] else {}
    return (ProximalGradientDescent if kind == 'pgd' else FISTA)(**pen, **options)


def problems(big):
    for a in ((1.,), (2.5,), (0.3, 2.), (1., 1.)):
        for x0 in itertools.product((-2., 0., 1.5) if big or len(a) == 1 else (-2., 0.75), repeat=len(a)):
            c = (0.5, -1.)[:len(a)]
            yield np.array([a]), np.array([c]), np.array([x0])


def schedule(step, it):
    s = step['step_size']
    if step.get('adapt_step_size'):
        k = it // step.get('adapt_every', 1)
        return s * step['exp_decay'] ** k if step.get('exp_decay') else s / (1 + k) ** step.get('power', 1.)
    return s


def soft(x, t):
    return np.sign(x) * np.maximum(np.abs(x) - t, 0)


def prox(name, x, t):
    if name is None:
        return x
    if name == 'l1':
        return soft(x, 0.6 * t)
    if name == 'l2':
        return x / (1 + 0.8 * t)
    z = soft(x, 0.2 * t)
    n = np.linalg.norm(z)
    return z * max(0., 1 - 0.5 * t / n) if n > 0 else z


def subgradient(name, v, x, tol):
    if name is None:
        return np.linalg.norm(v) <= tol
    if name == 'l1':
        return np.all(np.where(x != 0, np.abs(v - 0.6 * np.sign(x)), np.abs(v) - 0.6) <= tol)
    if name == 'l2':
        return np.linalg.norm(v - 0.8 * x) <= tol
    if not np.any(x):
        return np.linalg.norm(soft(v, 0.2)) <= 0.5 + tol
    n = v - 0.5 * x / np.linalg.norm(x)
    return np.all(np.where(x != 0, np.abs(n - 0.2 * np.sign(x)), np.abs(n) - 0.2) <= tol)


def reference(cfg, a, c, x0, noise):
    """ iterates and whether the run ends with success; noise: unit vectors """
    kind, stop, opt = cfg['kind'], cfg['stop'], cfg['options']
    grad = lambda x: a * (x - c)
    gtol, rel = stop.get('gtol', 1e-4), stop.get('rel_tol', 0.)
    xs, m, v, y, theta = [x0], 0., 0., x0, 1.
    while True:
        it, x = len(xs) - 1, xs[-1]
        if it > 0 and np.linalg.norm(x - xs[-2]) < rel * np.linalg.norm(x):
            return xs, True
        if it == stop['max_iter']:
            return xs, False
        g = grad(x)
        if kind == 'pgd':
            if subgradient(opt['penalty'], -g, x, gtol):
                return xs, True
        elif kind != 'fista' and np.linalg.norm(g) < gtol:
            return xs, True

        if kind == 'gd':
            d = m = opt['momentum'] * m + (1 - opt['momentum']) * g
        elif kind == 'adam':
            b1, b2, eps = opt.get('beta1', 0.9), opt.get('beta2', 0.999), opt.get('epsilon', 1e-8)
            m, v = b1 * m + (1 - b1) * g, b2 * v + (1 - b2) * g * g
            d = (m / (1 - b1 ** (it + 1))) / (np.sqrt(v / (1 - b2 ** (it + 1))) + eps)
        elif kind == 'noisy':
            d = g + noise[it]
        if cfg['step'] == LINE:
            q = np.sum(a * d * d)
            step = np.sum(g * d) / q if q > 0 else 0.
        else:
            step = schedule(cfg['step'], it)
        if kind == 'pgd':
            xs.append(prox(opt['penalty'], x - step * g, step))
        elif kind == 'fista':
            nxt = prox(opt['penalty'], y - step * grad(y), step)
            th = (1 + math.sqrt(1 + 4 * theta * theta)) / 2
            y = nxt + (theta - 1) / th * (nxt - x)
            theta = th
            xs.append(nxt)
        else:
            xs.append(x - step * d)


def near_border(cfg, a, c, xs):
    """ the stopping rule is too close to its threshold for a comparison """
    gtol, rel = cfg['stop'].get('gtol', 1e-4), cfg['stop'].get('rel_tol', 0.)
    for k, x in enumerate(xs):
        if abs(np.linalg.norm(a * (x - c)) - gtol) < 1e-7 and gtol > 0:
            return True
        if k and rel and abs(np.linalg.norm(x - xs[k - 1]) - rel * np.linalg.norm(x)) < 1e-7:
            return True
    return False


def run(cfg, stats):
    if 'mode' in cfg:
        return {'bfgs': run_bfgs, 'retries': run_retries, 'epochs': run_epochs, 'optimum': run_optimum}[cfg['mode']](cfg, stats)
    iterates = []
    opt = make(cfg, lambda x: iterates.append(np.array(x)))
    tol = 1e-5 if cfg['step'] == LINE else 1e-9
    for a, c, x0 in problems(cfg['big']):
        func = lambda x: float(np.sum(a * (x - c) ** 2) / 2)
        case = {'config': cfg, 'a': a.tolist(), 'x0': x0.tolist()}

        def execution(ch):
            noise = []

            def directions(n):
                menu = [np.array([1., -2.])[:n], np.array([-1., 0.5])[:n]]
                return [menu[len(noise) % 2]] if len(noise) > 3 else menu

            for again in range(2):  # the same object is used twice
                del iterates[:]
                keep, noise[:] = x0.copy(), []
                with controlled(ch, directions=directions) as rnd:
                    draw = rnd._normal_vector
                    def record(n):
                        d = draw(n)
                        noise.append((d / np.linalg.norm(d)).reshape(x0.shape))
                        return d
                    rnd._normal_vector = record
                    res = opt.minimize(x0, func, lambda x: a * (x - c))
                xs, success = reference(cfg, a, c, x0, noise)
                stats.step(len(xs))
                if not np.array_equal(x0, keep):
                    return stats.violation('x0-modified', 'starting point was changed: {}'.format(case), case)
                if near_border(cfg, a, c, xs):
                    stats.outcome('border')
                    continue
                ok = len(iterates) == len(xs) and all(np.allclose(p, q, atol=tol) for p, q in zip(iterates, xs))
                if not ok:
                    return stats.violation('iterates:' + cfg['kind'], 'iterates {} (again={}), expected {}: {}'.format([i.tolist() for i in iterates], again, [i.tolist() for i in xs], case), case)
                if bool(res.success) != success or res.it != len(xs) - 1 or not np.allclose(res.x, xs[-1], atol=tol) or abs(res.fun - func(res.x)) > 1e-9:
                    return stats.violation('result:' + cfg['kind'], 'result is {}, expected x={} success={} it={}: {}'.format(res, xs[-1], success, len(xs) - 1, case), case)
                stats.outcome('{} iterations, success={}'.format(len(xs) - 1, success))
            stats.state(case, ch.choices)

        explore(execution, stats)
        stats.sample(case)


def run_bfgs(cfg, stats):
    for a, c, x0 in problems(True):
        for gtol, limit in ((1e-6, None), (1e-2, None), (1e-6, 1)):
            seen = []
            func = lambda x: float(np.sum(a.ravel() * (np.ravel(x) - c.ravel()) ** 2) / 2)
            grad = lambda x: a.ravel() * (np.ravel(x) - c.ravel())
            res = BFGS(gtol=gtol, max_iter=limit, callback=lambda x: seen.append(np.array(x))).minimize(x0.copy(), func, grad)
            stats.executions += 1
            stats.step(len(seen))
            stats.state('bfgs', a.tolist(), x0.tolist(), gtol, limit)
            g = np.abs(grad(res.x)).max()
            if abs(res.fun - func(res.x)) > 1e-12 or (g > gtol and (limit is None or len(seen) > limit)):
                stats.violation('bfgs', 'BFGS ends with {} for curvatures {}, x0 = {}'.format(res, a, x0))


def run_optimum(cfg, stats):
    """ with the tolerances only (no limit of iterations), the end is the optimum """
    for a, c, x0 in problems(True):
        for name, opt in (('gd', GradientDescent(step_size=0.2, gtol=1e-6)), ('adam', Adam(step_size=0.05, gtol=1e-2)), ('line', GradientDescent(step_size=None, momentum=0, gtol=1e-6)),
                          ('l1', ProximalGradientDescent(L1Penalty(0.6), step_size=0.2, gtol=1e-6)), ('sparse', ProximalGradientDescent(SparseGroupLassoPenalty(0.2, 0.5), step_size=0.2, gtol=1e-6)),
                          ('l2', ProximalGradientDescent(L2Penalty(0.4), step_size=0.2, gtol=1e-6))):
            res = opt.minimize(x0, lambda x: float(np.sum(a * (x - c) ** 2) / 2), lambda x: a * (x - c))
            g = a * (res.x - c)
            stats.executions += 1
            stats.step(res.it)
            stats.state('optimum', name, a.tolist(), x0.tolist())
            ok = subgradient(name, -g, res.x, 2e-6) if name in ('l1', 'l2', 'sparse') else np.linalg.norm(g) < 1e-2
            if not res.success or not ok:
                stats.violation('optimum', '{} ends with {} for curvatures {}, x0 = {}'.format(name, res, a, x0))


class Scripted:
    def __init__(self, funs):
        self.funs, self.starts = funs, []

    def minimize(self, x0, func, grad):
        self.starts.append(np.array(x0))
        k = len(self.starts)
        return OptimizeResult(x=np.full(x0.shape, float(k)), fun=self.funs[k - 1], it=1, success=True)


def run_retries(cfg, stats):
    """ the weights are the ones of the best retry """
    X, y = np.array([[1., 2.], [0., 1.]]), np.array([0., 1.])
    for n in (1, 2, 3) if not cfg['big'] else (1, 2, 3, 4):
        for funs in itertools.product((1.0, 0.5, np.nan, np.inf), repeat=n):
            for fact in (1, 2, 3, [[0], [0, 1]], [[1]], [[1], [0, 1], [0]]):
                for given in (False, True):
                    K = fact if isinstance(fact, int) else len(fact)
                    opt = Scripted(funs)
                    learner = LinearFactorizationLearner(opt)
                    x0 = np.arange(float(n * K * 3)).reshape(n, K, 3) if given else None
                    case = {'funs': funs, 'factorization': fact, 'given': given}
                    stats.executions += 1
                    stats.step(n)
                    stats.state('retries', case)
                    finite = [f for f in funs if f < np.inf]
                    try:
                        res = learner.fit(X, y, fact, retries=n, x0=x0)
                    except RuntimeError:
                        if finite:
                            stats.violation('retries-raise', 'fit fails: {}'.format(case), case)
                        continue
                    if not finite:
                        stats.violation('retries-fail', 'fit does not report the failure: {}'.format(case), case)
                        continue
                    best = funs.index(min(finite)) + 1
                    W = learner.weight_matrix
                    mask = np.ones((K, 3)) if isinstance(fact, int) else np.array([[float(d in p) for d in range(2)] + [1.] for p in fact])
                    if res.fun != min(finite) or not np.array_equal(W, best * mask):
                        stats.violation('retries', 'chosen result is {} with weights {}, expected the one of retry {}: {}'.format(res.fun, W, best, case), case)
                    if len(opt.starts) != n or (n > 1 and not given and len({s.tobytes() for s in opt.starts}) < n):
                        stats.violation('starts', 'starting points are {}: {}'.format(opt.starts, case), case)
                    if given and not all(np.array_equal(np.ravel(s), x0[i][mask > 0]) for i, s in enumerate(opt.starts)):
                        stats.violation('starts', 'starting points are {}, expected {}: {}'.format(opt.starts, x0, case), case)
                    stats.outcome('best is {}'.format(best))


def run_epochs(cfg, stats):
    """ optimizers of swap learners count in epochs if they work with batches """
    for n in range(1, 8):
        for b in (None, 1, 2, 3, 5):
            for limit in (1, 2, 3):
                for every in (1, 2):
                    for decay in (0, 0.5):
                        for fista in (False, True):
                            per = 1 if b is None else -(-n // b)
                            opt = SimplifiedSwapLearner.get_optimizer(step_size=0.5, max_iter=limit, batch_size=b, adapt_step_size=True, adapt_every=every, exp_decay=decay, use_fista=fista, N=n)
                            xs = []  # points at which the gradient is computed, and the last one

                            def grad(x):
                                if not xs or xs[-1] != float(x[0, 0]):
                                    xs.append(float(x[0, 0]))
                                return np.array([[-1.]])
                            if fista:
                                opt.penalty_term = L2Penalty(1e-12)
                            res = opt.minimize(np.array([[0.]]), lambda x: float(-x[0, 0]), grad)
                            if xs[-1] != float(res.x[0, 0]):
                                xs.append(float(res.x[0, 0]))
                            stats.executions += 1
                            stats.step(res.it)
                            case = {'n': n, 'batch': b, 'limit': limit, 'every': every, 'decay': decay, 'fista': fista}
                            stats.state('epochs', case)
                            if res.it != limit * per or opt.batch_size != b:
                                stats.violation('epochs', '{} iterations, expected {}: {}'.format(res.it, limit * per, case), case)
                            if not fista:  # the gradient is constant: each step has the length of the step size
                                want = [0.5 * decay ** (k // (every * per)) if decay else 0.5 / (1 + k // (every * per)) ** 0.5 for k in range(res.it)]
                                if len(xs) != len(want) + 1 or not np.allclose(np.diff(xs), want, rtol=1e-6):
                                    stats.violation('decay', 'steps are {}, expected {}: {}'.format(np.diff(xs), want, case), case)
