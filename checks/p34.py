import itertools
import math

import numpy as np
from scipy.optimize import OptimizeResult

from aideme import LabeledSet, PartitionedDataset
from aideme.active_learning import FLMUncertaintySampler
from aideme.active_learning.factorization.learn import prune_irrelevant_subspaces
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import FISTA, Adam
from aideme.active_learning.factorization.penalty import SparseGroupLassoPenalty

from checks import logistic
from mc.choice import controlled, explore

PROPERTY = 'P34'
RULE = 'pruning: all weight matrices over an alphabet with zero, tiny and large values, for every data set, threshold and tolerance of the menu; copies: all ' \
       'sequences of fit / clear / copy operations on a family of up to 3 models up to the depth of the shard, with all optimizers of the menu; sampler: all ' \
       'sequences of weights (of a menu) found by the optimizer over several sessions, for every penalty schedule and pruning'
ASSUMPTIONS = ['at most 3 subspaces and 3 features', 'penalty term and optimizer are shared by copies on purpose, so they are not changed between']

DATA = {'cross': [[1., 0.], [-1., 0.], [0., 1.], [0., -1.]], 'one': [[2., -1.]], 'positive': [[1., 2.], [0.5, 1.], [3., 0.]]}


def configs(tier):
    big = tier == 'thorough'
    res = []
    for data in DATA:
        for bias in (True, False):
            for K in (1, 2) + ((3,) if big or not bias else ()):
                res += [{'mode': 'prune', 'data': data, 'bias': bias, 'K': K, 'part': [p, 4], 'big': big} for p in range(4 if K > 1 else 1)]
    for opt in ('adam', 'fista'):
        for bias in (True, False):
            for penalty in (True, False):
                res.append({'mode': 'copy', 'optimizer': opt, 'bias': bias, 'penalty': penalty, 'depth': 5 if big else 4})
    for penalty_iter in (0, 1, 2, 4):
        for log in (False, True):
            for prune in (False, True):
                for penalty in (0., 0.5):
                    for groups in (None, [[0, 1], [2]]):
                        if penalty or not (groups or penalty_iter):
                            res.append({'mode': 'sampler', 'penalty_iter': penalty_iter, 'log': log, 'prune': prune, 'penalty': penalty, 'groups': groups, 'length': 5 if big else 4})
    return res


def run(cfg, stats):
    {'prune': run_prune, 'copy': run_copy, 'sampler': run_sampler}[cfg['mode']](cfg, stats)


class Fixed:
    """ in place of an optimizer """
    def __init__(self, x=None):
        self.x = x

    def minimize(self, x0, func, grad):
        return OptimizeResult(x=np.array(self.x, dtype=float).reshape(x0.shape), fun=0.)


def trained(W, bias, X, optimizer=None):
    learner = LinearFactorizationLearner(Fixed(W), add_bias=bias)
    learner.fit(X, np.zeros(len(X)), len(W), x0=np.zeros((1,) + W.shape))
    return learner


def run_prune(cfg, stats):
    X = np.array(DATA[cfg['data']])
    K, b = cfg['K'], cfg['bias']
    rows = list(itertools.product((0., 1e-9, 1.5, -2.5) if K < 3 else (0., 1e-9, -2.5), repeat=2))
    rows = [r + (v,) for r in rows for v in (-1.5, 0.3, 7.)] if b else rows
    for count, combo in enumerate(itertools.product(rows, repeat=K)):
        if K > 1 and count % cfg['part'][1] != cfg['part'][0] or (b and K == 3 and count % 23):
            continue
        W = np.array(combo)
        w, bias = (W[:, :-1], W[:, -1]) if b else (W, np.zeros(K))
        low = [min(logistic.sigmoid(sum(u * v for u, v in zip(x, wk)) + bk) for x in X.tolist()) for wk, bk in zip(w.tolist(), bias.tolist())]
        for threshold, tol in ((0.99, 1e-8), (0.6, 1e-8), (0.99, 2.), (0.05, 1e-10)):
            learner = trained(W, b, X)
            got = prune_irrelevant_subspaces(X.copy(), learner, threshold=threshold, tol=tol)
            keep = [k for k in range(K) if low[k] < threshold and math.sqrt(sum(v * v for v in w[k])) > tol]
            stats.executions += 1
            stats.step()
            case = {'data': cfg['data'], 'weights': W.tolist(), 'bias': b, 'threshold': threshold, 'tol': tol}
            stats.state(case)
            if got.num_subspaces != len(keep) or not np.array_equal(got.weight_matrix, W[keep]) or not np.array_equal(got.weights, w[keep]) or not np.array_equal(got.bias, bias[keep]):
                stats.violation('prune', 'pruned weights are {}, expected subspaces {}: {}'.format(got.weight_matrix.tolist(), keep, case), case)
                continue
            if not np.array_equal(learner.weight_matrix, W) or learner.num_subspaces != K:
                stats.violation('original', 'pruning changed the model: {}'.format(case), case)
            want = np.array([math.exp(logistic.log_proba(m)) for m in logistic.margins_of(X.tolist(), bias[keep].tolist(), w[keep].tolist())]) if keep else np.ones(len(X))
            if not np.allclose(got.predict_proba(X), want, rtol=0, atol=1e-12):
                stats.violation('predictions', 'probabilities of the pruned model are {}, expected {}: {}'.format(got.predict_proba(X).tolist(), want.tolist(), case), case)
            got.clear()
            if not np.array_equal(learner.weight_matrix, W):
                stats.violation('independent', 'clearing the pruned model changed the original: {}'.format(case), case)
            stats.outcome('{} of {}'.format(len(keep), K))
    stats.sample(case)


def run_copy(cfg, stats):
    """ a family of models: each has its own weights """
    X = np.array([[1., 0.], [0., 1.], [-1., 2.]])
    menu = [np.arange(K * (2 + cfg['bias'])).reshape(K, -1) * (0.5 + v) - 1 for K, v in ((1, 0), (2, 1), (3, -0.5))]
    ops = ['copy'] + ['fit{}'.format(k) for k in range(3)] + ['clear', 'read']
    Q = X + 0.25

    def execution(ch):
        real = {'adam': Adam, 'fista': FISTA}[cfg['optimizer']](max_iter=1)
        state = {}
        real.minimize = lambda x0, func, grad: OptimizeResult(x=state['x'].reshape(x0.shape).copy(), fun=0.)
        penalty = SparseGroupLassoPenalty(0.1, 0.2) if cfg['penalty'] else None
        models, expected, done = [LinearFactorizationLearner(real, penalty, add_bias=cfg['bias'])], [None], []
        for _ in range(cfg['depth']):
            i, op = ch.choose(len(models)), ch.pick(ops)
            if op == 'copy' and len(models) == 3:
                continue
            done.append((i, op))
            if op == 'copy':
                models.append(models[i].copy())
                expected.append(expected[i])
            elif op == 'clear':
                models[i].clear()
                expected[i] = None
            elif op == 'read' and expected[i] is not None:  # values handed out do not give access to the model
                for v in (models[i].weights, models[i].bias, models[i].weight_matrix):
                    v += 5
            elif op.startswith('fit'):
                state['x'] = menu[int(op[3:])]
                models[i].fit(X, np.array([1., 0., 1.]), len(state['x']), x0=np.zeros((1,) + state['x'].shape))
                expected[i] = state['x'].copy()
            stats.step()
            for j, (m, e) in enumerate(zip(models, expected)):
                wm = m.weight_matrix
                if (wm is None) != (e is None) or (e is not None and not np.array_equal(wm, e)) or m.num_subspaces != (0 if e is None else len(e)):
                    stats.violation('copies', 'model {} has weights {}, expected {}, after {}'.format(j, wm, e, done), done)
                    return
                if e is not None:
                    w, b = (e[:, :-1], e[:, -1]) if cfg['bias'] else (e, np.zeros(len(e)))
                    ms = logistic.margins_of(Q.tolist(), b.tolist(), w.tolist())
                    if not np.allclose(m.partial_proba(Q), [[logistic.sigmoid(v) for v in r] for r in ms], rtol=0, atol=1e-12):
                        stats.violation('predictions', 'partial probabilities of model {} are wrong after {}'.format(j, done), done)
                        return
        stats.state(cfg, done)
        stats.outcome('{} models'.format(len(models)))
    explore(execution, stats)


X3 = np.array([[1., 1., 1.], [-1., 1., 0.5], [1., -1., 2.], [1., 1., -1.], [-1., -1., 1.], [0.5, -2., -1.]])
MENU = {1: [[[2., -1., 0.5, 0.25]], [[-1., 2., 2., 1.]], [[0., 0., 0., 1.]]], 2: [[[2., -1., 0.5, 0.25], [0., 1., -2., -0.5]], [[-1., 2., 2., 1.], [0., 0., 0., -1.]], [[1., 1., 0., 30.], [0.5, -1., 1., 0.]], [[0., 0., 10., 0.5], [2., -1., 0.5, 0.25]], [[0., 0., 0., 40.], [1., 1., 1., 60.]]]}


def run_sampler(cfg, stats):
    """ weights are carried over, penalties follow the schedule, and clear starts again """
    P = cfg['penalty']

    def penalty_of(w, lam):
        l1 = sum(abs(v) for r in w for v in r) if cfg['groups'] is None else sum(math.sqrt(sum(r[i] ** 2 for i in g)) for r in w for g in cfg['groups'])
        return lam * (l1 + sum(math.sqrt(sum(v * v for v in r)) for r in w))

    def execution(ch):
        sampler = FLMUncertaintySampler(penalty=P, num_subspaces=2, prune=cfg['prune'], one_hot_groups=cfg['groups'], penalty_iter=cfg['penalty_iter'], log=cfg['log'])
        log = []

        def minimize(x0, func, grad):
            x = np.array(ch.pick(MENU[len(x0)] if cfg['prune'] else MENU[len(x0)][:-1]))
            probes = [np.array([[((3 * i + 5 * j + p) % 7 - 3) / 2. for j in range(x0.shape[1])] for i in range(x0.shape[0])]) for p in (0, 1)]
            log.append((x0.copy(), x, [(p, float(func(p))) for p in probes]))
            return OptimizeResult(x=x.copy(), fun=1.)
        sampler.clf.optimizer.minimize = minimize
        case = {'config': cfg, 'choices': ch.choices}
        with controlled(ch, directions=lambda n: [[((3 * i) % 7 - 3) / 4. for i in range(n)]]):
            lengths = (ch.choose(3), cfg['length'] - 1)
            for session, length in enumerate(lengths):
                data = PartitionedDataset(X3.copy())
                weights = None
                for t in range(1, length + 1):
                    data.move_to_labeled(LabeledSet([float(t % 2)], index=[(2 * t) % 5]))
                    del log[:]
                    sampler.fit_data(data)
                    stats.step()
                    X, y = data.training_set()
                    where = dict(case, session=session, iteration=t)
                    if len(log) != 1:
                        stats.violation('fits', '{} optimizations: {}'.format(len(log), where), where)
                        return
                    x0, x, probes = log[0]
                    if x0.shape != ((2, 4) if weights is None or len(weights) == 0 else weights.shape) or (weights is not None and len(weights) and not np.array_equal(x0, weights)):
                        stats.violation('start', 'training starts from {}, expected {}: {}'.format(x0.tolist(), None if weights is None else weights.tolist(), where), where)
                        return
                    lam = P
                    if 0 < t <= cfg['penalty_iter']:
                        lam = P * t / cfg['penalty_iter'] if not cfg['log'] else P * math.log(1 + (math.e - 1) * t / cfg['penalty_iter'])
                    for p, v in probes:
                        want = logistic.loss_and_grad(X.tolist(), y.tolist(), p[:, -1].tolist(), p[:, :-1].tolist())[0] + penalty_of(p[:, :-1].tolist(), lam)
                        if abs(v - want) > 1e-9 * (1 + abs(want)):
                            stats.violation('loss', 'loss is {}, expected {} with penalty {}: {}'.format(v, want, lam, where), where)
                            return
                    weights = x
                    if cfg['prune']:
                        keep = [k for k in range(len(x)) if np.linalg.norm(x[k, :-1]) > 1e-8 and min(logistic.sigmoid(m) for m in X3 @ x[k, :-1] + x[k, -1]) < 0.99]
                        weights = x[keep]
                    lp = np.array([logistic.log_proba(m) for m in logistic.margins_of(X3.tolist(), weights[:, -1].tolist(), weights[:, :-1].tolist())])
                    for name, g, w in (('labels', sampler.predict(X3), (lp > np.log(0.5)).astype(float)), ('probabilities', sampler.predict_proba(X3), np.exp(lp)),
                                       ('ranks', sampler.rank(X3), np.abs(np.exp(lp) - 0.5))):
                        if not np.allclose(g, w, rtol=0, atol=1e-9):
                            stats.violation('predictions', '{} are {}, expected {}: {}'.format(name, g.tolist(), w.tolist(), where), where)
                            return
                sampler.clear()
        stats.state(case)
        stats.outcome('sessions of {} and {}'.format(*lengths))
        stats.sample(case)
    explore(execution, stats)
