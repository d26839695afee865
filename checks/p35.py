import itertools
import math
import sys
import types

import numpy as np
from scipy.optimize import linprog

if 'pystan' not in sys.modules:  # only the 'stan' sampler needs it
    try:
        import pystan  # noqa: F401
    except ImportError:
        _stub = types.ModuleType('pystan')
        _stub.StanModel = None
        sys.modules['pystan'] = _stub

from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace

from checks.p26 import value

PROPERTY = 'P35'
RULE = 'every labeling of every sequence of training points of a grid (repeated points included) up to the size of the shard, for every prior, intercept and ' \
       'kernel of the menu, trained once and in sessions with clear: probabilities, labels and ranks of all points of a grid are compared ' \
       'with the Laplace approximation computed by an independent Newton method; learners which were trained before on other labels, ' \
       'with strict and loose tolerances, are compared with new ones'
ASSUMPTIONS = ['at most 4 training points', 'improper prior: only labels which are not linearly separable (otherwise there is no estimate)',
               'comparison up to 1e-3, the optimizer stops at a tolerance']

POINTS = {1: [(0.,), (1.,), (-2.,), (0.5,)], 2: [(0., 0.), (1., 0.), (0., 2.), (-1., 1.)]}
KERNELS = [{'kernel': 'rbf'}, {'kernel': 'rbf', 'gamma': 0.3}, {'kernel': 'gaussian', 'gamma': 2.}, {'kernel': 'linear'}, {'kernel': 'poly', 'degree': 2, 'coef0': 1.}]


def configs(tier):
    big = tier == 'thorough'
    res = []
    for dim in (1, 2):
        for intercept in (True, False):
            for prior in ('gaussian', 'improper'):
                for std in (0.5, 1., 3.) if prior == 'gaussian' else (1.,):
                    res += [{'mode': 'linear', 'dim': dim, 'intercept': intercept, 'prior': prior, 'std': std, 'size': s, 'big': big}
                            for s in ((1, 2, 3) if prior == 'gaussian' else (3, 4)) + ((4,) if big and prior == 'gaussian' else ())]
        for k in range(len(KERNELS)):
            for std in (0.5, 1., 3.):
                for sampler in ('kernel-laplace', 'laplace'):
                    res += [{'mode': 'kernel', 'dim': dim, 'kernel': k, 'std': std, 'sampler': sampler, 'size': s, 'big': big} for s in (1, 2, 3)]
    for dim in (1, 2):
        res += [{'mode': 'session', 'dim': dim, 'kind': kind, 'big': big} for kind in ('linear', 'laplace', 'kernel-laplace')]
        res += [{'mode': 'again', 'dim': dim, 'kind': kind, 'tol': tol} for kind in ('linear', 'laplace', 'kernel-laplace') for tol in (1e-6, 0.02)]
    res.append({'mode': 'arguments'})
    return res


def run(cfg, stats):
    globals()['run_' + cfg['mode']](cfg, stats)


def sigmoid(t):
    return 0.5 * (1 + np.tanh(0.5 * np.asarray(t, dtype=float)))


def cdf(t):
    return 0.5 * math.erfc(-t / math.sqrt(2))


def newton(F, y, info):
    """ minimizer of sum log(1 + exp(-y f)) + info / 2 |w|^2, f = F w, and its Hessian. :return: None if there is none """
    w, s = np.zeros(F.shape[1]), np.where(np.array(y) == 1, 1., -1.)

    def loss(w):
        return np.logaddexp(0, -s * (F @ w)).sum() + 0.5 * info * (w @ w)
    for _ in range(500):
        f = F @ w
        g = -F.T @ (s * sigmoid(-s * f)) + info * w
        P = sigmoid(f) * sigmoid(-f)
        H = (F.T * P) @ F + max(info, 1e-12) * np.eye(len(w))
        if np.abs(g).max() < 1e-11:
            return w, H
        step = np.linalg.solve(H, g)
        t = 1.
        while loss(w - t * step) > loss(w) + 1e-13 * (1 + loss(w)) and t > 1e-12:
            t /= 2
        w = w - t * step
    return (w, H) if np.abs(g).max() < 1e-7 else None


def laplace(F, y, info, Q):
    """ probabilities of the rows of Q """
    res = newton(F, y, info)
    if res is None:
        return None
    w, H = res
    return [cdf(float(q @ w) / math.sqrt(float(q @ np.linalg.solve(H, q)) + 8 / math.pi)) for q in Q]


def gram(spec, A, B):
    return np.array([[value(spec, a, b) for b in B] for a in A])


def gaussian_process(spec, train, y, info, queries, unit=False):
    """ Laplace approximation of a Gaussian process of covariance k / info; unit: as if k(x, x) were 1 """
    K = gram(spec, train, train)
    # feature space of training points: K = F F^T
    vals, vecs = np.linalg.eigh(K)
    F = vecs * np.sqrt(np.maximum(vals, 0))
    w, H = newton(F, y, info)
    f = F @ w
    W = sigmoid(f) * sigmoid(-f)
    C = np.sqrt(W)
    B = C[:, None] * K * C + info * np.eye(len(K))
    grad = np.where(np.array(y) == 1, 1., -1.) * sigmoid(-np.where(np.array(y) == 1, 1., -1.) * f)  # = info * alpha
    res = []
    for q in queries:
        k = gram(spec, [q], train)[0]
        mean = k @ grad / info
        kk = 1. if unit else value(spec, q, q)
        var = (kk - (k * C) @ np.linalg.solve(B, k * C)) / info
        res.append(cdf(mean / math.sqrt(var + 8 / math.pi)) if var + 8 / math.pi > 0 else math.nan)
    return res


def compare(model, queries, expected, case, stats, key='probability', also=None):
    """ also: (other accepted result, key it is reported under) """
    Q = np.array(queries)
    before = Q.tolist()
    p = np.array(model.predict_proba(Q))
    stats.step()
    if p.shape != (len(Q),) or not np.allclose(p, expected, atol=1e-3):
        if also is not None and p.shape == (len(Q),) and np.allclose(p, also[0], atol=1e-3, equal_nan=True):
            key = also[1]
        stats.violation(key, 'probabilities are {}, expected {}: {}'.format(p, expected, case), case)
        return False
    labels, ranks = np.array(model.predict(Q)), np.array(model.rank(Q))
    if labels.tolist() != [float(v > 0.5) for v in p] or not np.allclose(ranks, np.abs(p - 0.5), atol=1e-9):
        stats.violation('labels', 'labels {} and ranks {} for probabilities {}: {}'.format(labels, ranks, p, case), case)
        return False
    single = [float(np.ravel(model.predict_proba(Q[i:i + 1]))[0]) for i in range(len(Q))]
    if not np.allclose(single, p, atol=1e-9) or Q.tolist() != before:
        stats.violation('single', 'probabilities one by one are {}, together {}: {}'.format(single, p, case), case)
        return False
    stats.outcome('{}/{} positive'.format(int(labels.sum()), len(labels)))
    return True


def separable(F, y):
    """ is there w with s f >= 0 everywhere and > 0 somewhere (then there is no estimate under an improper prior) """
    A = F * np.where(np.array(y) == 1, 1., -1.)[:, None]
    res = linprog(-A.sum(axis=0), A_ub=-A, b_ub=np.zeros(len(A)), bounds=[(-1, 1)] * F.shape[1])
    return res.fun < -1e-9


def grid(dim):
    return POINTS[dim] + [tuple(2.5 - 0.75 * v for v in p) for p in POINTS[dim]]


def expand(X, intercept):
    return np.array([([1.] if intercept else []) + list(x) for x in X])


def labelings(cfg, count):
    pts = POINTS[cfg['dim']]
    for chosen in itertools.product(range(len(pts)), repeat=cfg['size']):
        for y in itertools.product((0, 1), repeat=cfg['size']):
            count[0] += 1
            if not cfg['big'] and ((cfg['size'] == 3 and count[0] % 5) or (cfg['size'] == 4 and count[0] % 25)):
                continue
            yield [pts[i] for i in chosen], y


def run_linear(cfg, stats):
    info = 0. if cfg['prior'] == 'improper' else 1 / cfg['std'] ** 2
    queries = grid(cfg['dim'])
    case = {'config': cfg}
    for train, y in labelings(cfg, [0]):
        F = expand(train, cfg['intercept'])
        if info == 0. and (np.linalg.matrix_rank(F) < F.shape[1] or separable(F, y)):
            continue
        case = {'points': train, 'labels': y, 'config': cfg}
        stats.current = case
        X = np.array(train)
        model = BayesianLinearVersionSpace(sampler='laplace', prior=cfg['prior'], prior_std=cfg['std'], add_intercept=cfg['intercept'])
        model.fit(X, np.array(y, dtype=float))
        stats.executions += 1
        stats.check(X.tolist() == [list(x) for x in train], 'arguments', 'training points were modified: {}'.format(case), case)
        stats.state(case)
        if not compare(model, queries, laplace(F, y, info, expand(queries, cfg['intercept'])), case, stats):
            return
    stats.sample(case)


def run_kernel(cfg, stats):
    spec, info = KERNELS[cfg['kernel']], 1 / cfg['std'] ** 2
    queries = grid(cfg['dim'])
    case = {'config': cfg}
    for train, y in labelings(cfg, [0]):
        case = {'points': train, 'labels': y, 'config': cfg, 'kernel': spec}
        stats.current = case
        also = None
        if cfg['sampler'] == 'laplace':
            expected = laplace(expand(gram(spec, train, train), True), y, info, expand(gram(spec, queries, train), True))
        else:
            expected = gaussian_process(spec, train, y, info, queries)
            if spec['kernel'] in ('linear', 'poly'):
                also = gaussian_process(spec, train, y, info, queries, unit=True), 'kernel-laplace-unit-diagonal'
        X = np.array(train)
        model = BayesianKernelVersionSpace(sampler=cfg['sampler'], prior='gaussian', prior_std=cfg['std'], add_intercept=True, **spec)
        model.fit(X, np.array(y, dtype=float))
        stats.executions += 1
        stats.check(X.tolist() == [list(x) for x in train], 'arguments', 'training points were modified: {}'.format(case), case)
        stats.state(case)
        if not compare(model, queries, expected, case, stats, also=also) and also is None:
            return
    stats.sample(case)


def run_session(cfg, stats):
    """ one model, trained on growing data, cleared, and trained on other data """
    dim, pts = cfg['dim'], POINTS[cfg['dim']]
    queries = grid(dim)
    spec, std = KERNELS[1], 1.5
    for order in itertools.permutations(range(len(pts)), 3):
        for y in itertools.product((0, 1), repeat=3):
            model = BayesianLinearVersionSpace(sampler='laplace', prior='gaussian', prior_std=std) if cfg['kind'] == 'linear' else \
                BayesianKernelVersionSpace(sampler=cfg['kind'], prior='gaussian', prior_std=std, **spec)
            for session in range(2):
                for n in (2, 3) if session == 0 else (1, 2):
                    train = [pts[i] for i in (order if session == 0 else order[::-1])[:n]]
                    lb = (y if session == 0 else [1 - v for v in y])[:n]
                    case = {'points': train, 'labels': lb, 'session': session, 'config': cfg}
                    stats.current = case
                    model.fit(np.array(train), np.array(lb, dtype=float))
                    stats.executions += 1
                    stats.state(case)
                    if cfg['kind'] == 'linear':
                        expected = laplace(expand(train, True), lb, 1 / std ** 2, expand(queries, True))
                    elif cfg['kind'] == 'laplace':
                        expected = laplace(expand(gram(spec, train, train), True), lb, 1 / std ** 2, expand(gram(spec, queries, train), True))
                    else:
                        expected = gaussian_process(spec, train, lb, 1 / std ** 2, queries)
                    if not compare(model, queries, expected, case, stats, key='session'):
                        return
                model.clear()
    stats.sample(case)


def run_again(cfg, stats):
    """ a model which was trained before, whatever its tolerance and prior, answers like a new one """
    dim, pts = cfg['dim'], POINTS[cfg['dim']]
    Q = np.array(grid(dim))

    def create(prior):
        if cfg['kind'] == 'linear':
            return BayesianLinearVersionSpace(sampler='laplace', prior=prior, tol=cfg['tol'])
        return BayesianKernelVersionSpace(sampler=cfg['kind'], prior=prior, tol=cfg['tol'], **KERNELS[1])
    for prior in ('gaussian', 'improper') if cfg['kind'] != 'kernel-laplace' else ('gaussian',):
        for order in itertools.permutations(range(len(pts)), 3):
            X = np.array([pts[i] for i in order])
            for y in itertools.product((0., 1.), repeat=3):
                if prior == 'improper' and len(set(y)) < 2 and cfg['tol'] < 1e-3:
                    continue
                new = create(prior)
                new.fit(X.copy(), np.array(y))
                expected = new.predict_proba(Q)
                for cleared in (False, True):
                    case = {'points': X.tolist(), 'labels': y, 'cleared': cleared, 'prior': prior, 'config': cfg}
                    stats.current = case
                    model = create(prior)
                    model.fit(X.copy(), np.array([1. - v if k else v for k, v in enumerate(y)]))
                    model.predict_proba(Q)
                    if cleared:
                        model.clear()
                    model.fit(X.copy(), np.array(y))
                    stats.executions += 1
                    stats.step()
                    stats.state(case)
                    got = model.predict_proba(Q)
                    if not np.allclose(got, expected, atol=1e-9, rtol=0):
                        return stats.violation('again', 'probabilities are {}, of a new learner {}: {}'.format(got, expected, case), case)
    stats.sample(case)


def run_arguments(cfg, stats):
    for opts, ok in (({'sampler': 'laplace'}, True), ({'sampler': 'other'}, False), ({'sampler': 'laplace', 'prior': 'other'}, False), ({'prior_std': 0.}, False),
                     ({'prior_std': -1.}, False), ({'tol': 0.}, False), ({'max_iter': 0}, False), ({'prior': 'gaussian', 'prior_std': 2.}, True)):
        for cls in (BayesianLinearVersionSpace, BayesianKernelVersionSpace):
            try:
                cls(**opts)
                accepted = True
            except (ValueError, TypeError, AssertionError):
                accepted = False
            stats.step()
            stats.executions += 1
            stats.state(opts, cls.__name__)
            stats.check(accepted == ok, 'arguments', '{} accepted={} for {}'.format(cls.__name__, accepted, opts), opts)
    stats.sample({'options': 8})
