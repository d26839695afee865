import itertools
import math

import numpy as np

from aideme.active_learning.aluma import aluma_preprocessing
from aideme.active_learning.kernel import Kernel
from checks.p26 import value

PROPERTY = 'P42'
RULE = 'for every sequence of distinct points of a grid up to the size of the shard, every kernel (or none), margin, loss bound, probability and seed of the menu: ' \
       'for each column of the result all sign vectors are enumerated, one must explain it; the sign vectors found over all columns and seeds must be all ' \
       'that exist; repeated runs with one seed must agree'
ASSUMPTIONS = ['at most 3 points of at most 2 dimensions', 'kernel matrices are positive definite', 'seeds come from a menu']

POINTS = {1: [(1.,), (0.25,), (-2.,)], 2: [(0.5, 0.), (1., 1.25), (-1., 2.), (3., 0.)]}
KERNELS = [None, {'kernel': 'rbf'}, {'kernel': 'rbf', 'gamma': 0.3}, {'kernel': 'poly', 'degree': 3, 'coef0': 1.}]
SETTINGS = [(1., 0., 0.1), (1., 0.5, 0.5), (0.8, 2., 0.9), (0.5, 0., 1.), (1.3, 4., 0.01)]


def configs(tier):
    big = tier == 'thorough'
    return [{'mode': 'columns', 'dim': dim, 'kernel': k, 'size': s, 'settings': SETTINGS[i:i + 1], 'seeds': 4 if not big else 12}
            for dim in (1, 2) for k in range(len(KERNELS)) for s in (1, 2, 3) for i in range(len(SETTINGS))] + [{'mode': 'arguments'}]


def run(cfg, stats):
    globals()['run_' + cfg['mode']](cfg, stats)


def run_columns(cfg, stats):
    spec = KERNELS[cfg['kernel']]
    for pts in itertools.permutations(POINTS[cfg['dim']], cfg['size']):
        n = len(pts)
        if spec is None:
            F = np.array(pts)
        else:
            G = np.array([[value(spec, a, b) for b in pts] for a in pts])
            if np.linalg.eigvalsh(G).min() < 1e-6:
                continue
            F = np.linalg.cholesky(G)  # rows have the inner products of the kernel
        D = F.shape[1]
        for margin, H, delta in cfg['settings']:
            eps = margin / 2 / (1 + math.sqrt(H))
            k = math.ceil(4 * math.log(4 * n / delta) / (eps * eps * (1 - eps)))
            a = 1 / math.sqrt(1 + math.sqrt(H))
            signs = [(s, t) for s in itertools.product((1, -1), repeat=D) for t in itertools.product((1, -1), repeat=n)]
            b = math.sqrt(1 - a * a)
            images = np.array([a * F @ np.array(s) + b * np.array(t) for s, t in signs])
            found = set()
            for seed in range(cfg['seeds']):
                case = {'points': pts, 'kernel': spec, 'margin': margin, 'H': H, 'delta': delta, 'seed': seed}
                kernel = None if spec is None else Kernel.get(**spec)
                results = []
                for s in (seed, seed, np.random.RandomState(seed)):
                    X = np.array(pts)
                    results.append(aluma_preprocessing(X, kernel, margin, H, delta, s))
                    stats.executions += 1
                    if X.tolist() != [list(p) for p in pts]:
                        return stats.violation('input-modified', 'data was changed to {}: {}'.format(X.tolist(), case), case)
                if not all(np.array_equal(results[0], r) for r in results[1:]):
                    return stats.violation('seed', 'one seed gives different results: {}'.format(case), case)
                R = results[0]
                if R.shape != (n, k):
                    return stats.violation('shape', 'shape is {}, expected {}: {}'.format(R.shape, (n, k), case), case)
                err = np.abs(R.T[:, None, :] - images[None, :, :]).max(axis=2)
                if not (err.min(axis=1) < 1e-9).all():
                    j = int(err.min(axis=1).argmax())
                    return stats.violation('column', 'column {} is no combination of features and signs: {}: {}'.format(j, R[:, j], case), case)
                stats.step()
                for row in err < 1e-9:
                    found |= set(np.flatnonzero(row).tolist())
                stats.state(case)
            if len(found) < len(signs):
                missing = [signs[i] for i in range(len(signs)) if i not in found][:3]
                return stats.violation('signs', 'some signs never occur, e.g. {}: {}'.format(missing, case), case)
            stats.outcome('{} sign vectors'.format(len(signs)))
            stats.sample(case)


def run_arguments(cfg, stats):
    X = np.array([[1.], [2.]])
    for bad in ((0., 1., 0.5), (-1., 1., 0.5), (1., -1., 0.5), (1., 1., -0.1), (1., 1., 1.1)):
        try:
            aluma_preprocessing(X, None, *bad)
            stats.violation('accepts-argument', 'margin {}, loss bound {}, probability {} are accepted'.format(*bad), bad)
        except ValueError:
            stats.executions += 1
            stats.state(bad)
    X = np.array([[1.], [2.]])
    other = aluma_preprocessing(X, None, 1., 1., 0.5, 0)
    stats.check(not np.array_equal(other, aluma_preprocessing(X, None, 1., 1., 0.5, 1)), 'seed', 'seeds 0 and 1 give the same signs')
    stats.outcome('arguments')
