import itertools

import numpy as np
from scipy.optimize import OptimizeResult

from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.penalty import PenaltyTerm
from checks.logistic import *
from mc.choice import Chooser, controlled, explore, subsets

PROPERTY = 'P28'
RULE = 'for every data set and labeling of the menu and every setting (bias, penalty, factorization, data per subspace), all weight matrices ' \
       'over the alphabet: loss, gradient and predictions of the real learner are compared with exact formulas; for batches: all orders of ' \
       'up to 4 points, over several epochs. In the quick tier, matrices with more than 5 entries are thinned by a fixed stride'
ASSUMPTIONS = ['at most 4 points, 3 features and 2 subspaces', 'margins at most 700 in absolute value']

ALPHABET = [-3.0, 0.0, 0.5, 2.0]
DATA = {
    'one': ([[1.0], [-2.0], [0.5]], 1),
    'two': ([[1.0, 0.0], [-1.0, 2.0], [0.5, -3.0]], 2),
    'three': ([[1.0, 0.0, -2.0], [0.0, 1.0, 1.0]], 3),
    'integers': ([[1, 0], [-1, 2], [3, 1]], 2),
    'large': ([[1.0], [20.0], [-20.0], [200.0]], 1),
}


class Linear(PenaltyTerm):
    """ a penalty whose gradient is easy to recognize """
    def __init__(self, penalty):
        super().__init__(penalty)
        self.factor = penalty

    def loss(self, x):
        return self.factor * float(np.sum(x * np.arange(1, x.size + 1).reshape(x.shape)))

    def grad(self, x):
        return self.factor * np.arange(1., x.size + 1).reshape(x.shape)


class Probe:
    """ in place of an optimizer: evaluates the function it is given wherever the check wants """
    def __init__(self, visit, batch_size=None):
        self.visit = visit
        if batch_size is not None:
            self.batch_size = batch_size

    def minimize(self, x0, func, grad):
        x = self.visit(x0, func, grad)
        return OptimizeResult(x=x, fun=0.)


def configs(tier):
    big = tier == 'thorough'
    res = []
    for data in DATA:
        dim = DATA[data][1]
        for K in (1, 2):
            for bias in (True, False):
                facts = [None]
                if dim == 2:
                    facts += [[[0], [1]], [[1], [0]], [[0, 1], [1]]] if K == 2 else [[[1]]]
                if dim == 3:
                    facts += [[[0, 2], [1]], [[1], [0, 2]], [[2, 0], [1, 2]]] if K == 2 else [[[2, 0]]]
                for fact in facts:
                    for penalty in (None, 0.5):
                        res.append({'data': data, 'K': K, 'bias': bias, 'fact': fact, 'penalty': penalty, 'subspaces': False, 'big': big})
                if dim < 3 and data != 'integers' and K == 2:
                    res.append({'data': data, 'K': K, 'bias': bias, 'fact': None, 'penalty': None, 'subspaces': True, 'big': big})
    for n in (2, 3, 4):
        for b in range(1, n + 2):
            for penalty in (None, 0.5):
                for fact in (None, [[0], [1]]):
                    res.append({'mode': 'batch', 'n': n, 'batch': b, 'penalty': penalty, 'fact': fact, 'big': big})
    return res


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * np.maximum(1, np.abs(b)))))


def expand(x, cfg, dim):
    """ flat parameters given by the optimizer -> bias, weights """
    D = dim + cfg['bias']
    if cfg['fact'] is None:
        W = np.array(x, dtype=float).reshape(-1, D)
    else:
        W = np.zeros((len(cfg['fact']), D))
        it = iter(np.ravel(x))
        for k, p in enumerate(cfg['fact']):
            for d in sorted(p) + ([dim] if cfg['bias'] else []):
                W[k, d] = next(it)
    return (W[:, -1], W[:, :-1]) if cfg['bias'] else (np.zeros(len(W)), W)


def restrict(gw, gb, cfg, dim):
    G = np.c_[gw, gb] if cfg['bias'] else gw
    if cfg['fact'] is None:
        return G
    return np.array([G[k, d] for k, p in enumerate(cfg['fact']) for d in sorted(p) + ([dim] if cfg['bias'] else [])])


def run(cfg, stats):
    if cfg.get('mode') == 'batch':
        return run_batch(cfg, stats)
    rows, dim = DATA[cfg['data']]
    X = np.array(rows)
    if cfg['subspaces']:
        X = np.array([[[c + k * 0.5 * (j + 1) for k in range(cfg['K'])] for j, c in enumerate(v)] for v in rows])
    n_par = cfg['K'] * (dim + cfg['bias']) if cfg['fact'] is None else sum(len(p) + cfg['bias'] for p in cfg['fact'])
    alphabet = ALPHABET if n_par <= 6 else [-3.0, 0.5, 2.0]
    stride = 1 if cfg['big'] or n_par <= 5 else 3 if n_par == 6 else 7
    points = list(itertools.islice(itertools.product(alphabet, repeat=n_par), 0, None, stride))

    for labels in itertools.product((0, 1), repeat=len(rows)):
        for dtype in ('float', 'int') if labels[0] else ('float',):
            y = np.array(labels, dtype=dtype)

            def visit(x0, func, grad):
                for p in points:
                    check(cfg, stats, X, labels, np.array(p).reshape(x0.shape), func, grad, dim)
                return np.array(points[-1]).reshape(x0.shape)

            penalty = None if cfg['penalty'] is None else Linear(cfg['penalty'])
            learner = LinearFactorizationLearner(Probe(visit), penalty, add_bias=cfg['bias'])
            Xc, yc = X.copy(), y.copy()
            learner.fit(X, y, cfg['K'] if cfg['fact'] is None else cfg['fact'], x0=np.zeros((1, cfg['K'], dim + cfg['bias'])))
            if not np.array_equal(X, Xc) or not np.array_equal(y, yc):
                stats.violation('data-modified', 'fit changed its arguments: {}'.format(cfg))
    predictions(cfg, stats, X, points, dim)
    stats.outcome('{} parameters'.format(n_par))


def check(cfg, stats, X, labels, x, func, grad, dim):
    bias, W = expand(x, cfg, dim)
    loss, gw, gb = loss_and_grad(X, labels, bias, W)
    if cfg['penalty'] is not None:
        coef = cfg['penalty'] * np.arange(1., W.size + 1).reshape(W.shape)
        loss, gw = loss + float(np.sum(coef * W)), gw + coef
    case = {'config': cfg, 'labels': labels, 'x': x.tolist()}
    got = func(x)
    stats.step()
    stats.executions += 1
    if not close(got, loss):
        stats.violation('loss', 'loss is {}, expected {}: {}'.format(got, loss, case), case)
    g = grad(x)
    want = restrict(gw, gb, cfg, dim)
    if not close(np.ravel(g), np.ravel(want)) or np.shape(g) != np.shape(x):
        stats.violation('gradient', 'gradient is {}, expected {}: {}'.format(g, want, case), case)
    stats.state(cfg, labels, x.tolist())
    stats.sample(dict(case, loss=loss, gradient=want.tolist()))


def predictions(cfg, stats, X, points, dim):
    for p in points:
        learner = LinearFactorizationLearner(Probe(lambda x0, f, g: np.array(p).reshape(x0.shape)), add_bias=cfg['bias'])
        learner.fit(X, np.zeros(len(X)), cfg['K'] if cfg['fact'] is None else cfg['fact'], x0=np.zeros((1, cfg['K'], dim + cfg['bias'])))
        bias, W = expand(p, cfg, dim)
        case = {'config': cfg, 'x': p}
        if not close(learner.weights, W) or not close(learner.bias, bias) or learner.num_subspaces != len(W):
            stats.violation('weights', 'weights {} {}, expected {} {}: {}'.format(learner.weights, learner.bias, W, bias, case), case)
        ms = margins_of(X, bias, W)
        want = [np.exp(log_proba(m)) for m in ms]
        proba, pred = learner.predict_proba(X), learner.predict(X)
        partial, ppred = learner.partial_proba(X), learner.partial_predict(X)
        stats.executions += 1
        stats.step()
        if not close(proba, want):
            stats.violation('probability', 'probabilities are {}, expected {}: {}'.format(proba, want, case), case)
        if any(abs(w - 0.5) > 1e-12 and q != float(w > 0.5) for w, q in zip(want, pred)):
            stats.violation('prediction', 'predictions are {} for probabilities {}: {}'.format(pred, want, case), case)
        if not close(partial, [[sigmoid(m) for m in r] for r in ms]):
            stats.violation('partial-probability', 'partial probabilities are {} for margins {}: {}'.format(partial, ms, case), case)
        if any(m != 0 and q != float(m > 0) for r, s in zip(ms, ppred) for m, q in zip(r, s)):
            stats.violation('partial-prediction', 'partial predictions are {} for margins {}: {}'.format(ppred, ms, case), case)


def run_batch(cfg, stats):
    """ each epoch goes once through all points, in batches; the loss is always the one of all points """
    n, b = cfg['n'], cfg['batch']
    X = np.array([[1., 3.], [-2., 1.], [0.5, -1.], [4., 0.25]])[:n]
    labels = [0, 1, 0, 1][:n]
    cfg = dict(cfg, bias=True)
    x = np.array([0.3, -0.4, 0.2, 0.1]) if cfg['fact'] else np.array([[0.3, -0.4, 0.2], [0.1, 0.6, -0.5]])
    bias, W = expand(x, cfg, 2)
    coef = 0. if cfg['penalty'] is None else cfg['penalty'] * np.arange(1., W.size + 1).reshape(W.shape)
    expected = {}
    for size in {min(b, n), n % b or min(b, n)}:
        for sub in itertools.combinations(range(n), size):
            _, gw, gb = loss_and_grad(X[list(sub)], [labels[i] for i in sub], bias, W)
            expected[sub] = np.ravel(restrict(gw + coef, gb, cfg, 2))
    full = loss_and_grad(X, labels, bias, W)[0] + float(np.sum(coef * W))
    per_epoch = -(-n // b)

    def execution(ch):
        seen = []

        def visit(x0, func, grad):
            for step in range(2 * per_epoch + (per_epoch > 1 and (n < 4 or cfg['big']))):
                g = np.ravel(grad(x))
                hits = [s for s, e in expected.items() if close(g, e)]
                if len(hits) != 1:
                    return stats.violation('batch-gradient', 'gradient {} is not the one of any batch: {}, expected one of {}'.format(g, cfg, expected), {'choices': ch.choices}) or x
                seen.append(hits[0])
                if not close(func(x), full):
                    stats.violation('batch-loss', 'loss {} is not the loss of all points, {}: {}'.format(func(x), full, cfg), {'choices': ch.choices})
            return x

        learner = LinearFactorizationLearner(Probe(visit, b), None if cfg['penalty'] is None else Linear(cfg['penalty']))
        with controlled(ch, max_perm=4):
            learner.fit(X, np.array(labels, dtype=float), 2 if cfg['fact'] is None else cfg['fact'], x0=np.zeros((1, 2, 3)))
        for e in range(0, len(seen), per_epoch):
            epoch = seen[e:e + per_epoch]
            covered = sorted(i for s in epoch for i in s)
            ok = [len(s) for s in epoch] == ([b] * (n // b) + ([n % b] if n % b else []))[:len(epoch)] if b < n else all(len(s) == n for s in epoch)
            if not ok or len(set(covered)) != len(covered) or len(epoch) == per_epoch and covered != list(range(n)):
                return stats.violation('epoch', 'batches of epoch {} are {}: {}'.format(e // per_epoch, epoch, cfg), {'choices': ch.choices})
        stats.state(cfg, seen)
        stats.outcome('batches of {}'.format([len(s) for s in seen[:per_epoch]]))
        orders.add(tuple(seen[:per_epoch]))

    orders = set()
    explore(execution, stats, limit=30000)
    if b < n and len({o[0] for o in orders}) < len([s for s in expected if len(s) == b]):
        stats.violation('orders', 'the first batch is one of {} for all orders of points: {}'.format({o[0] for o in orders}, cfg))
