import itertools
import math
import warnings

import numpy as np
from scipy.optimize import OptimizeResult

from aideme.active_learning.factorization import KernelFactorizationLearner
from aideme.active_learning.factorization.interaction import add_interaction_terms
from aideme.active_learning.kernel import FactorizedKernelTransform, IncrementedDiagonalKernel, Kernel, KernelTransformer

from checks import logistic

PROPERTY = 'P37'
RULE = 'all pairs of sequences of up to 3 points (repetitions included) of a grid in 1 to 3 dimensions, for every kernel of the menu: matrices, diagonals, jitter, ' \
       'transformers (also fitted again, cloned and divided into subspaces) are compared with the kernel computed point by point; kernel factorization ' \
       'learners (also over Nystroem features, with equal weights for the features of a subspace) with all labels, weights of a menu and divisions into subspaces; interaction terms of all matrices over an alphabet'
ASSUMPTIONS = ['at most 3 training points and 3 features', 'Nystroem features: all training points are components (their inner products are then the kernel)']

KERNELS = [{'kernel': 'linear'}, {'kernel': 'rbf'}, {'kernel': 'gaussian', 'gamma': 0.3}, {'kernel': 'RBF', 'gamma': 2.}, {'kernel': 'poly'}, {'kernel': 'poly', 'degree': 2, 'gamma': 0.5, 'coef0': 0.},
           {'kernel': 'POLY', 'degree': 4, 'coef0': 2.}, {'kernel': 'poly', 'degree': 1, 'gamma': 3.}]
GRIDS = {1: [[0.], [1.5], [-2.]], 2: [[0., 0.], [1., -1.], [0.5, 2.], [1., -1.]], 3: [[0., 1., 2.], [1., 1., -1.], [-2., 0.5, 0.]]}


def configs(tier):
    big = tier == 'thorough'
    res = []
    for k in range(len(KERNELS)):
        for dim in (1, 2, 3):
            res.append({'mode': 'kernel', 'kernel': k, 'dim': dim, 'size': 3 if big or dim == 1 else 2})
            res.append({'mode': 'transform', 'kernel': k, 'dim': dim, 'big': big})
        res.append({'mode': 'learner', 'kernel': k, 'big': big})
        if KERNELS[k]['kernel'] in ('linear', 'rbf', 'poly'):  # names known to scikit-learn
            res.append({'mode': 'nystroem', 'kernel': k})
    res += [{'mode': 'interaction', 'dim': d, 'rows': r} for d in (1, 2, 3) for r in (1, 2) if d * r < 5 or big] + [{'mode': 'names'}]
    return res


def run(cfg, stats):
    warnings.simplefilter('ignore')
    {'kernel': run_kernel, 'transform': run_transform, 'learner': run_learner, 'nystroem': run_nystroem, 'interaction': run_interaction, 'names': run_names}[cfg['mode']](cfg, stats)


def value(opts, x, z, coef0=1.):
    name, D = opts['kernel'].lower(), len(x)
    dot = math.fsum(a * b for a, b in zip(x, z))
    if name == 'linear':
        return dot
    gamma = opts.get('gamma', 1. / D)
    if name == 'poly':
        return (gamma * dot + opts.get('coef0', coef0)) ** opts.get('degree', 3)
    return math.exp(-gamma * math.fsum((a - b) ** 2 for a, b in zip(x, z)))


def matrix(opts, A, B, coef0=1.):
    return np.array([[value(opts, a, b, coef0) for b in B] for a in A]).reshape(len(A), len(B))


def same(got, want):
    return np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-9, atol=1e-9)


def run_kernel(cfg, stats):
    opts, grid = KERNELS[cfg['kernel']], GRIDS[cfg['dim']]
    k = Kernel.get(**opts)
    inc = IncrementedDiagonalKernel(k, 0.25)
    sets = [s for n in range(1, cfg['size'] + 1) for s in itertools.product(range(len(grid)), repeat=n)]
    for s in sets:
        A = [grid[i] for i in s]
        X = np.array(A)
        keep = X.copy()
        K, n = matrix(opts, A, A), len(A)
        stats.executions += 1
        stats.step()
        stats.state(cfg['kernel'], A)
        case = {'kernel': opts, 'points': A}
        for name, got, want in (('matrix', k(X), K), ('matrix', k(X, X), K), ('matrix', k(X, X.copy()), K), ('matrix', k.compute(X), K), ('diagonal', k.diagonal(X), np.diag(K)),
                                ('jitter', inc(X), K + 0.25 * np.eye(n)), ('jitter', inc(X, X), K + 0.25 * np.eye(n)), ('diagonal', inc.diagonal(X), np.diag(K) + 0.25)):
            if not same(got, want):
                stats.violation(name, '{} is {}, expected {}: {}'.format(name, got.tolist(), want.tolist(), case), case)
        for dtype in (int, np.float32, np.int8):  # points with coordinates which these types hold
            Z = np.round(4 * X).astype(dtype)
            want = matrix(opts, Z.tolist(), Z.tolist()) + 1e-3 * np.eye(n)
            tiny = IncrementedDiagonalKernel(k, 1e-3)
            if not same(tiny(Z), want) or not same(tiny.diagonal(Z), np.diag(want)) or not same(tiny(Z, Z), want):
                stats.violation('type', 'jittered matrix of {} data is {}, diagonal {}, expected {}: {}'.format(Z.dtype, tiny(Z), tiny.diagonal(Z), want, Z.tolist()), case)
        for jitter in (1e-5, 0.5):
            tr = KernelTransformer.get(jitter=jitter, **opts)
            T, other = tr.fit_transform(X), X[::-1] + 0.125
            if not same(T, K + jitter * np.eye(n)) or not same(tr.transform(other), matrix(opts, other.tolist(), A)):
                stats.violation('jitter', 'features with jitter {} are {}: {}'.format(jitter, T.tolist(), case), case)
        if not same(k(X), K) or not np.array_equal(X, keep):
            stats.violation('repeat', 'second computation differs or the data was changed: {}'.format(case), case)
        for t in sets:
            B = [grid[i] for i in t]
            want = matrix(opts, A, B)
            stats.step()
            if not same(k(X, np.array(B)), want):
                stats.violation('matrix', 'matrix is {}, expected {}: {} and {}'.format(k(X, np.array(B)).tolist(), want.tolist(), case, B), case)
            if not set(s) & set(t) and not same(inc(X, np.array(B)), want):
                stats.violation('jitter', 'jitter between different points: {} and {}'.format(case, B), case)
        stats.outcome('kernel')
    stats.sample(case)


def run_transform(cfg, stats):
    opts, grid, D = KERNELS[cfg['kernel']], GRIDS[cfg['dim']], cfg['dim']
    sets = [s for n in (1, 2, 3) for s in itertools.product(range(len(grid)), repeat=n)]
    if not cfg['big']:
        sets = [s for s in sets if len(s) < 3 or s[0] <= s[1] <= s[2]]
    Q = [list(map(float, q)) for q in itertools.product((0.5, -1.), repeat=D)]
    facts = [None, [list(range(D))]] + ([[[0], [1]], [[1], [0, 1]]] if D == 2 else [[[2, 0], [1]], [[0], [1], [2]]] if D == 3 else [[[0], [0]]])
    for fact in facts:
        for nystroem in (None, 5) if opts['kernel'] in ('linear', 'rbf', 'poly') else (None,):
            base = KernelTransformer.get(nystroem_components=nystroem, **opts)
            tr = base.clone() if fact is None else FactorizedKernelTransform(base, fact)
            used = None
            for s in sets:
                A = [grid[i] for i in s]
                subs = [list(range(D))] if fact is None else fact
                case = {'kernel': opts, 'training': A, 'factorization': fact, 'nystroem': nystroem, 'before': used}
                used = A
                np.random.seed(1)  # order of components of Nystroem
                X = np.array(A)
                T = np.array(tr.fit_transform(X))
                U, V = np.array(tr.transform(np.array(Q))), np.array(tr.transform(X.copy()))
                clone = tr.clone()
                np.random.seed(1)
                clone.fit(np.array(Q))
                again = np.array(tr.transform(np.array(Q)))
                stats.executions += 1
                stats.step()
                stats.state(case)
                if fact is None:
                    T, U, V, again = T[..., None], U[..., None], V[..., None], again[..., None]
                if not np.array_equal(again, U):
                    stats.violation('clone', 'fitting a clone changed the transformer: {}'.format(case), case)
                if T.shape[2] != len(subs) or U.shape[:1] != (len(Q),) or T.shape[:1] != (len(A),):
                    stats.violation('shape', 'features have shapes {} and {}: {}'.format(T.shape, U.shape, case), case)
                    continue
                for k, sub in enumerate(subs):
                    a, q = [[p[i] for i in sub] for p in A], [[p[i] for i in sub] for p in Q]
                    if nystroem is None:
                        ok = same(T[:, :, k], matrix(opts, a, a)) and same(U[:, :, k], matrix(opts, q, a)) and same(V[:, :, k], matrix(opts, a, a))
                    else:
                        F, G = T[:, :, k], U[:, :, k]
                        Kaa = matrix(opts, a, a)
                        if len(A) > 1 and np.linalg.svd(Kaa, compute_uv=False)[-1] < 1e-3 * max(1, np.abs(Kaa).max()):
                            continue  # repeated points
                        ok = np.allclose(F @ F.T, Kaa, rtol=1e-6, atol=1e-6) and np.allclose(G @ F.T, matrix(opts, q, a), rtol=1e-6, atol=1e-6)
                    if not ok:
                        stats.violation('features', 'features of subspace {} are not those of the kernel: {}'.format(sub, case), case)
                stats.outcome('nystroem' if nystroem else 'kernel')
    stats.sample(case)


class Fixed:
    def __init__(self):
        self.losses = []

    def minimize(self, x0, func, grad):
        self.losses.append((float(func(self.x.reshape(x0.shape))), np.array(grad(self.x.reshape(x0.shape)))))
        return OptimizeResult(x=self.x.reshape(x0.shape), fun=0.)


def run_learner(cfg, stats):
    """ the model is a factorized linear model of kernel values """
    opts, D = KERNELS[cfg['kernel']], 2
    grid = [[0.5, 1.], [1., -1.], [-0.5, 0.5]]
    Q = [[0., 0.5], [1., 1.], [-1., 0.5]]
    seqs = list(itertools.product(range(3), repeat=2)) + list(itertools.permutations(range(3)))
    for fact in (1, 2, [[0], [1]], [[1], [0, 1]], [[1, 0]]):
        for bias in (True, False):
            opt = Fixed()
            learner = KernelFactorizationLearner(opt, add_bias=bias, **opts)
            for s in seqs:
                A = [grid[i] for i in s]
                K = fact if isinstance(fact, int) else len(fact)
                subs = [[0, 1]] * K if isinstance(fact, int) else fact
                Km = [matrix(opts, [[p[i] for i in u] for p in A], [[p[i] for i in u] for p in A], 0.) for u in subs]
                Kq = [matrix(opts, [[p[i] for i in u] for p in Q], [[p[i] for i in u] for p in A], 0.) for u in subs]
                for y in itertools.product((0., 1.), repeat=len(A)):
                    for v in range(3 if cfg['big'] else 2):
                        n = len(A)
                        W = np.array([[((4 * i + 3 * j + 2 * v) % 5 - 2) / 2. for j in range(n + bias)] for i in range(K)])
                        w, b = (W[:, :-1], W[:, -1]) if bias else (W, np.zeros(K))
                        opt.x = W
                        del opt.losses[:]
                        np.random.seed(0)
                        learner.fit(np.array(A), np.array(y), fact)
                        stats.executions += 1
                        stats.step()
                        case = {'kernel': opts, 'training': A, 'labels': y, 'factorization': fact, 'bias': bias, 'weights': W.tolist()}
                        stats.state(case)
                        three = np.array(Km).transpose(1, 2, 0)
                        loss, gw, gb = logistic.loss_and_grad(three, y, b, w)
                        want = np.hstack([gw, gb.reshape(-1, 1)]) if bias else gw
                        if len(opt.losses) != 1 or not np.isclose(opt.losses[0][0], loss, rtol=1e-7, atol=1e-9) or not np.allclose(opt.losses[0][1], want, rtol=1e-7, atol=1e-8):
                            stats.violation('loss', 'loss is {}, expected {}: {}'.format(opt.losses[0][0] if opt.losses else None, loss, case), case)
                        ms = logistic.margins_of(np.array(Kq).transpose(1, 2, 0), b, w)
                        lp = np.array([logistic.log_proba(m) for m in ms])
                        part = np.array([[logistic.sigmoid(m) for m in r] for r in ms])
                        Z = np.array(Q)
                        if not np.allclose(learner.predict_proba(Z), np.exp(lp), rtol=1e-7, atol=1e-9) or not np.allclose(learner.partial_proba(Z), part, rtol=1e-7, atol=1e-9):
                            stats.violation('probabilities', 'probabilities are {}, expected {}: {}'.format(learner.predict_proba(Z).tolist(), np.exp(lp).tolist(), case), case)
                        sure = np.abs(lp - math.log(0.5)) > 1e-6
                        if not np.array_equal(learner.predict(Z)[sure], (lp > math.log(0.5)).astype(float)[sure]):
                            stats.violation('labels', 'labels are {}: {}'.format(learner.predict(Z).tolist(), case), case)
                        if learner.num_subspaces != K or not np.array_equal(learner.weight_matrix, W):
                            stats.violation('weights', 'weights are {}: {}'.format(learner.weight_matrix.tolist(), case), case)
                        stats.outcome('learner')
    stats.sample(case)


def run_nystroem(cfg, stats):
    """ the same over Nystroem features, which are known up to their order if all points are components """
    opts = KERNELS[cfg['kernel']]
    grid = [[0.5, 1.], [1., -1.], [-0.5, 0.5]]
    Q = [[0., 0.5], [1., 1.], [-1., 0.5]]
    for fact in (1, 2, [[0], [1]], [[1], [0, 1]]):
        subs = [[0, 1]] * fact if isinstance(fact, int) else fact
        for bias in (True, False):
            opt = Fixed()
            learner = KernelFactorizationLearner(opt, add_bias=bias, nystroem_components=5, **opts)
            for s in [t for n in (1, 2, 3) for t in itertools.permutations(range(3), n)]:
                A = [grid[i] for i in s]
                feats = []
                for u in subs:
                    a, q = [[p[i] for i in u] for p in A], [[p[i] for i in u] for p in Q]
                    val, vec = np.linalg.eigh(np.array(matrix(opts, a, a, 0.), dtype=float))
                    if val[0] < 1e-3 * max(1, val[-1]):
                        break
                    root = (vec / np.sqrt(val)) @ vec.T
                    feats.append((np.array(matrix(opts, a, a, 0.)) @ root, np.array(matrix(opts, q, a, 0.)) @ root))
                if len(feats) < len(subs):
                    continue  # features of a singular kernel matrix
                for y in itertools.product((0., 1.), repeat=len(A)):
                    for c in (0.5, -1.):
                        n, K = len(A), len(subs)
                        W = np.array([[c * (i + 1)] * n + [0.25 * (i + 1)] * bias for i in range(K)])  # equal weights for all features
                        w, b = (W[:, :-1], W[:, -1]) if bias else (W, np.zeros(K))
                        opt.x = W
                        del opt.losses[:]
                        np.random.seed(0)
                        case = {'kernel': opts, 'training': A, 'labels': y, 'factorization': fact, 'bias': bias, 'weights': W.tolist(), 'nystroem': 5}
                        stats.current = case
                        learner.fit(np.array(A), np.array(y), fact)
                        stats.executions += 1
                        stats.step()
                        stats.state(case)
                        loss, gw, gb = logistic.loss_and_grad(np.array([f[0] for f in feats]).transpose(1, 2, 0), y, b, w)
                        got = opt.losses[0]
                        grad = np.array(got[1]).reshape(W.shape)
                        ok = len(opt.losses) == 1 and np.isclose(got[0], loss, rtol=1e-6, atol=1e-8) and \
                            np.allclose(np.sort(grad[:, :n]), np.sort(gw), rtol=1e-6, atol=1e-7) and (not bias or np.allclose(grad[:, -1], gb, rtol=1e-6, atol=1e-7))
                        if not ok:
                            stats.violation('loss', 'loss is {}, expected {}: {}'.format(got, (loss, gw, gb), case), case)
                        ms = logistic.margins_of(np.array([f[1] for f in feats]).transpose(1, 2, 0), b, w)
                        lp = np.array([logistic.log_proba(m) for m in ms])
                        if not np.allclose(learner.predict_proba(np.array(Q)), np.exp(lp), rtol=1e-6, atol=1e-8):
                            stats.violation('probabilities', 'probabilities are {}, expected {}: {}'.format(learner.predict_proba(np.array(Q)).tolist(), np.exp(lp).tolist(), case), case)
                        stats.outcome('nystroem-learner')


def run_interaction(cfg, stats):
    D, R = cfg['dim'], cfg['rows']
    for flat in itertools.product((-2., 0., 1., 3.), repeat=D * R):
        X = np.array(flat).reshape(R, D)
        for square in (False, True):
            want = [r + ([v * v for v in r] if square else []) + [r[i] * r[j] for i in range(D) for j in range(i + 1, D)] for r in X.tolist()]
            got = add_interaction_terms(X.copy(), square)
            stats.executions += 1
            stats.step()
            stats.state(flat, square, D)
            if np.array(got).tolist() != want:
                stats.violation('interaction', 'terms of {} are {}, expected {}'.format(X.tolist(), np.array(got).tolist(), want), X.tolist())
    stats.outcome('interaction')


def run_names(cfg, stats):
    for name in ('other', '', 'gauss', 'polynomial', 'linear '):
        stats.executions += 1
        stats.step()
        stats.state(name)
        try:
            Kernel.get(name)
            stats.violation('names', 'kernel {!r} was accepted'.format(name), name)
        except ValueError:
            stats.outcome('rejected')
