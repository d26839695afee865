import itertools

import numpy as np

from aideme import LabeledSet, PartitionedDataset
from aideme.active_learning import ActiveLearner
from aideme.active_learning.active_learner import FactorizedActiveLearner
from aideme.active_learning.factorization.active_learning import SwapLearner, SimplifiedSwapLearner
from aideme.active_learning.factorization.learn import compute_factorization_and_partial_labels
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import GradientDescent
from scipy.optimize import OptimizeResult

from checks import logistic
from checks.p32 import compatible
from mc.choice import controlled, explore

PROPERTY = 'P33'
RULE = 'for every setting of the menu (iterations before the swap, training on predictions or labels, sample size, retries, pruning, interval and ' \
       'stability of factorizations, user factorization given before or never, separate or shared models, pruning threshold): every sequence of weights (of a menu) found ' \
       'by the optimizer in a session, also after a first session of every length and clear; data, starting points and losses that reach the ' \
       'optimizer, calls of the components, partial labels, predictions, probabilities and ranks are compared with a reference process'
ASSUMPTIONS = ['optimizers, first active learner and factorized learner are recording stubs',
               'the factorization of a given linear model is decided by P32']

CUBE = np.array([[1., 1., 1.], [-1., 1., 1.], [1., -1., 2.], [1., 1., -1.], [-1., -1., 1.], [1., -2., -1.]])
LABELS = [1., 0., 0., 1., 0., 0.]
ORDER = [1, 3, 4, 5, 2, 0]
MENU = {  # rows of weights and biases, by number of subspaces
    1: [([[40., 0., 0.]], [5.]), ([[40., 40., 0.]], [-5.])],
    2: [([[40., 0., 0.], [0., 40., 40.]], [5., -5.]), ([[0., -40., 40.], [40., 0., 0.]], [5., 5.]), ([[0., 0., 40.], [0., 40., 0.]], [3., 5.])],
    3: [([[40., 0., 0.], [0., 0., 40.], [0., 40., 0.]], [5., 5., 5.]), ([[40., 0., 0.], [0., 0., 40.], [0., -40., 0.]], [-5., 3., 5.])],
}
PRUNABLE = {  # second subspace is positive everywhere, or zero
    1: None, 2: ([[0., 40., 40.], [1., 0., 1.]], [5., 30.]), 3: ([[40., 0., 0.], [0., 0., 0.], [0., -40., 40.]], [5., -1., 5.]),
}
USERS = [None, [[0], [1, 2]], [[1, 2], [0]], [[2], [1]], [[0], [1], [2]], [[2, 1, 0]]]


def configs(tier):
    big = tier == 'thorough'
    res = []
    base = {'mode': 'session', 'swap': 1, 'K': 2, 'retries': 1, 'on_prediction': True, 'sample': None, 'prune': True, 'every': 1, 'repeat': 1, 'user': 1,
            'late': False, 'shared': False, 'fact': True, 'adapt': False, 'bias': True, 'first': None, 'length': 4 if not big else 5}
    for kw in itertools.product((1, 2), (True, False), (True, False), (True, False)):
        res.append(dict(base, **dict(zip(('swap', 'on_prediction', 'prune', 'shared'), kw))))
    for every, repeat in ((1, 1), (1, 2), (2, 1), (3, 1), (2, 2)):
        for K in (2, 3):
            for user in range(len(USERS)):
                if not big and user in (0, 5) and (every, repeat) != (1, 1):
                    continue
                res.append(dict(base, every=every, repeat=repeat, K=K, user=user, late=bool(user % 2), prune=bool(K % 2), on_prediction=bool(user % 2)))
    for first in (2, 3, 4, 5):  # a first session which ends with the factorized learner
        for shared in (True, False):
            for repeat in (1, 2):
                res.append(dict(base, first=first, shared=shared, repeat=repeat, script=[0], user=1 + repeat % 2, length=3))
    res += [dict(base, threshold=0.9, K=2, shared=s, length=3) for s in (True, False)]
    for first in range(0, 6):
        for shared in (True, False):
            for prune in (True, False):
                res.append(dict(base, first=first, shared=shared, prune=prune, length=3))
    res += [dict(base, fact=False, shared=s, prune=p) for s in (True, False) for p in (True, False)]
    res += [dict(base, adapt=True, prune=p, first=f, length=3, shared=s) for p in (True, False) for f in (None, 3) for s in (False, True)]
    res += [dict(base, bias=False, prune=p, shared=s) for p in (True, False) for s in (True, False)]
    res += [dict(base, mode='sample', sample=s, retries=r) for s in (1, 2, 6, 9) for r in (1, 3)]
    res.append({'mode': 'defaults'})
    return res


def run(cfg, stats):
    {'session': run_session, 'sample': run_sample, 'defaults': run_defaults}[cfg['mode']](cfg, stats)


class FirstLearner(ActiveLearner):
    def __init__(self):
        self.fits = []

    def clear(self):
        self.fits = []

    def fit_data(self, data):
        X, y = data.training_set()
        self.fits.append((X.tolist(), y.tolist()))

    def predict(self, X):
        return ((X @ [1., 2., 4.] > len(self.fits) % 3) != (len(self.fits) % 2)).astype(float)

    def predict_proba(self, X):
        return 0.25 + 0.5 * self.predict(X)

    def rank(self, X):
        return X @ [1., 2., 4.] + len(self.fits)


class Factorized(FactorizedActiveLearner):
    def __init__(self):
        self.calls = []

    def clear(self):
        self.calls = []

    def set_factorization_structure(self, **kw):
        self.calls.append(('structure', [[int(i) for i in s] for s in kw['partition']], kw.get('mode')))

    def fit_data(self, data):
        X, y = data.training_set(get_partial=True)
        self.calls.append(('fit', X.tolist(), y.tolist()))

    def predict(self, X):
        return (X @ [4., 2., 1.] > len(self.calls)).astype(float)

    def predict_proba(self, X):
        return 0.125 + 0.25 * self.predict(X)

    def rank(self, X):
        return X @ [4., 2., 1.] - len(self.calls)


class Scripted(GradientDescent):
    """ in place of an optimizer: the weights found are those of a menu """
    def __init__(self, name, log, choose, adapt):
        super().__init__(step_size=1., gtol=0, rel_tol=0, max_iter=77)
        self.name, self.log, self.choose, self.adapt = name, log, choose, adapt

    def limit(self):
        """ number of iterations this optimizer takes at most (its real behaviour, on a linear function) """
        if not self.adapt:
            return None
        return super().minimize(np.zeros((1, 1)), lambda x: -float(x[0, 0]), lambda x: np.array([[-1.]])).it

    def minimize(self, x0, func, grad):
        probes = [np.array([[((7 * i + 3 * j + p) % 5 - 2) / 2. for j in range(x0.shape[1])] for i in range(x0.shape[0])]) for p in range(3)]
        x, fun = self.choose(x0)
        self.log.append({'who': self.name, 'x0': x0.copy(), 'probes': [(p, float(func(p))) for p in probes], 'x': x, 'fun': fun, 'max_iter': self.limit()})
        return OptimizeResult(x=x.copy(), fun=fun)


def start(n):
    return [[((3 * i) % 7 - 3) / 4. for i in range(n)]]


def options(K, prune, bias, threshold=0.99):
    res = list(MENU[K])
    if threshold < 0.99 and K > 1:
        res.append((MENU[K][0][0][:-1] + [[1., 0., 1.]], MENU[K][0][1][:-1] + [4.]))  # positive with probability 0.98 at least
    if prune and PRUNABLE[K]:
        res.append(PRUNABLE[K])
    if prune:
        res.append(([[0., 0., 0.]] * K, [3.] * K))  # nothing is left of it
    return [np.c_[np.array(w), np.array(b)] if bias else np.array(w) for w, b in res]


def split(W, bias):
    return (W[:, :-1], W[:, -1]) if bias else (W, np.zeros(len(W)))


def matches(entry, X, y, bias):
    """ whether the loss given to the optimizer is the one of data X, y """
    for p, v in entry['probes']:
        w, b = split(p, bias)
        want = logistic.loss_and_grad(X.tolist(), list(y), b.tolist(), w.tolist())[0]
        if abs(v - want) > 1e-9 * (1 + abs(want)):
            return False
    return True


def model_values(W, bias, X):
    w, b = split(W, bias)
    lp = np.array([logistic.log_proba(m) for m in logistic.margins_of(X.tolist(), b.tolist(), w.tolist())])
    return (lp > np.log(0.5)).astype(float), np.exp(lp)


def pruned(W, bias, threshold=0.99):
    w, b = split(W, bias)
    keep = [k for k in range(len(w)) if np.linalg.norm(w[k]) > 1e-8 and min(logistic.sigmoid(v) for v in CUBE @ w[k] + b[k]) < threshold]
    return W[keep]


class Constant:
    """ optimizer which always ends at the same weights """
    batch_size = None

    def __init__(self, weights):
        self.weights = weights

    def minimize(self, x0, func, grad):
        return OptimizeResult(x=self.weights.copy(), fun=0., success=True, it=0)


class Session:
    def __init__(self, cfg, stats):
        self.cfg, self.stats, self.log = cfg, stats, []
        self.script = None
        b = cfg['bias']
        swap = LinearFactorizationLearner(Scripted('swap', self.log, self.choose, cfg['adapt']), add_bias=b)
        refine = None if cfg['shared'] else LinearFactorizationLearner(Scripted('refine', self.log, self.choose, cfg['adapt']), add_bias=b)
        self.al, self.fact = FirstLearner(), Factorized() if cfg['fact'] else None
        user = USERS[cfg['user']]
        self.learner = SwapLearner(
            self.al, swap, refine, num_subspaces=cfg['K'], retries=cfg['retries'], swap_iter=cfg['swap'], train_on_prediction=cfg['on_prediction'],
            train_sample_size=cfg['sample'], prune=cfg['prune'], prune_threshold=cfg.get('threshold', 0.99), fact_model=self.fact, user_fact=None if cfg['late'] else user,
            compute_fact_every=cfg['every'], fact_repeat=cfg['repeat'], fact_max_iter=1, fact_step_size=1e-6, max_iter_adapter=(lambda it: 10 + 3 * it) if cfg['adapt'] else None)
        if cfg['late']:
            self.learner.set_user_factorization(user)

    def choose(self, x0):
        return self.script(x0)

    def fail(self, key, msg, case):
        self.stats.violation(key, msg + ': {}'.format(case), case)

    def play(self, length, case):
        """ :param length: number of iterations """
        cfg, learner, log = self.cfg, self.learner, self.log
        data = PartitionedDataset(CUBE.copy())
        weights, prev, count, final = None, None, 0, 0
        fits, fact_calls = [], []
        if len(self.al.fits) or (self.fact and self.fact.calls):
            self.fail('clear', 'components were not cleared', case)
        for t in range(1, length + 1):
            if t <= len(CUBE):
                i = ORDER[t - 1]
                data.move_to_labeled(LabeledSet([LABELS[i]], [[LABELS[i]] * final] if final else None, [i]))  # one label per subspace
            del log[:]
            learner.fit_data(data)
            self.stats.step()
            X, y = data.training_set()
            where = dict(case, iteration=t)
            due = cfg['fact'] and t > cfg['swap'] and (t - cfg['swap'] - 1) % cfg['every'] == 0
            expected_calls = 0
            if t <= cfg['swap']:
                fits.append((X.tolist(), y.tolist()))
            elif t == cfg['swap'] + 1:
                expected_calls = cfg['retries']
                if len(log) == expected_calls:
                    e = log[0]
                    Xt, yt = (CUBE, self.al.predict(CUBE)) if cfg['on_prediction'] else (X, y)
                    if cfg['adapt'] and e['max_iter'] != 77:
                        self.fail('swap-limit', 'swap model is limited to {} iterations, which is a setting of the refining'.format(e['max_iter']), where)
                    if e['who'] != 'swap' or e['x0'].shape != (cfg['K'], 3 + cfg['bias']):
                        self.fail('swap-model', 'swap trains {} with starting point of shape {}'.format(e['who'], e['x0'].shape), where)
                    if not matches(e, Xt, yt, cfg['bias']):
                        self.fail('swap-data', 'swap model is not trained on {}'.format('predictions of all points' if cfg['on_prediction'] else 'the labels'), where)
                    weights = min(log, key=lambda e: e['fun'])['x']
            elif not final:
                restart = len(weights) == 0  # everything was pruned
                expected_calls = cfg['retries'] if restart else 1
                if len(log) == expected_calls:
                    e = min(log, key=lambda e: e['fun'])
                    if e['who'] != ('swap' if cfg['shared'] else 'refine'):
                        self.fail('refine-model', 'refining used the model ' + e['who'], where)
                    if restart:
                        if e['x0'].shape != (cfg['K'], 3 + cfg['bias']):
                            self.fail('refine-start', 'refining after all subspaces were pruned starts from {}'.format(e['x0'].tolist()), where)
                    elif e['x0'].shape != weights.shape or not np.array_equal(e['x0'], weights):
                        self.fail('refine-start', 'refining starts from {}, expected {}'.format(e['x0'].tolist(), weights.tolist()), where)
                    if not matches(e, X, y, cfg['bias']):
                        self.fail('refine-data', 'refining model is not trained on all labels', where)
                    if cfg['adapt'] and e['max_iter'] != 10 + 3 * (t - cfg['swap'] - 1):
                        self.fail('adapt', 'refining is limited to {} iterations'.format(e['max_iter']), where)
                    weights = pruned(e['x'], cfg['bias'], cfg.get('threshold', 0.99)) if cfg['prune'] else e['x']
            else:
                fact_calls.append(('fit', X.tolist(), data.training_set(get_partial=True)[1].tolist()))
            if len(log) != expected_calls:
                self.fail('trainings', '{} optimizations, expected {}'.format(len(log), expected_calls), where)
                return
            if due and not final:
                model = LinearFactorizationLearner(Constant(weights), add_bias=cfg['bias'])
                model.fit(X.copy(), y.copy(), max(1, len(weights)), x0=np.zeros((1, max(1, len(weights)), weights.shape[1])))
                fact, partial = self.factorize(data, model)
                count = count + 1 if prev == fact else 0
                prev = fact
                order = compatible(fact, USERS[cfg['user']])
                if count >= cfg['repeat'] and order is not None:
                    final = len(order)
                    fact_calls += [('structure', [fact[i] for i in order], 'numerical'), ('fit', X.tolist(), partial[:, order].tolist())]
            if self.al.fits != fits:
                self.fail('first-learner', 'first learner was trained with {}, expected {}'.format(self.al.fits, fits), where)
            if self.fact and self.fact.calls != fact_calls:
                self.fail('factorized', 'factorized learner received {}, expected {}'.format(self.fact.calls, fact_calls), where)
            if t <= cfg['swap']:
                want = self.al.predict(CUBE), self.al.predict_proba(CUBE), self.al.rank(CUBE)
                phase = 'first'
            elif final:
                want = self.fact.predict(CUBE), self.fact.predict_proba(CUBE), self.fact.rank(CUBE)
                phase = 'factorized'
            else:
                p, pr = model_values(weights, cfg['bias'], CUBE)
                want = p, pr, np.abs(pr - 0.5)
                phase = 'linear'
            got = learner.predict(CUBE), learner.predict_proba(CUBE), learner.rank(CUBE)
            for name, g, w in zip(('labels', 'probabilities', 'ranks'), got, want):
                if np.shape(g) != np.shape(w) or not np.allclose(g, w, rtol=0, atol=1e-9):
                    self.fail('predictions', '{} are {}, expected {} of the {} model'.format(name, np.array(g).tolist(), w.tolist(), phase), where)
            lm = learner.linear_model
            if (lm is None) != (t <= cfg['swap']) or (lm is not None and not np.array_equal(lm.weight_matrix, weights)):
                self.fail('linear-model', 'linear model is {}'.format(None if lm is None else lm.weight_matrix), where)
            self.stats.outcome(phase)
            self.stats.state(case, t, phase, None if weights is None else weights.tolist())

    def factorize(self, data, model):
        fact, partial = compute_factorization_and_partial_labels(data, model, fista_step_size=1e-6, max_iter=1)
        return [[int(i) for i in s] for s in fact], partial


def run_session(cfg, stats):
    def execution(ch):
        s = Session(cfg, stats)
        case = {'config': cfg, 'choices': ch.choices}
        with controlled(ch, directions=start):
            if cfg['first'] is not None:
                count = [0]

                def fixed(x0):
                    count[0] += 1
                    picks = cfg.get('script') or (0, -2 if cfg['prune'] else -1, -1)
                    return options(len(x0), cfg['prune'], cfg['bias'])[picks[min(count[0], len(picks)) - 1]], 1.
                s.script = fixed
                s.play(cfg['first'], dict(case, session=1))
                s.learner.clear()
            s.script = lambda x0: (ch.pick(options(len(x0), cfg['prune'], cfg['bias'], cfg.get('threshold', 0.99))), 1.)
            s.play(cfg['swap'] + cfg['length'], case)
        stats.sample(case)
    explore(execution, stats)


def run_sample(cfg, stats):
    """ training of the swap model on samples: all samples can occur, and the best of several retries is used """
    reached = set()
    N = len(CUBE)

    def execution(ch):
        s = Session(cfg, stats)
        case = {'config': cfg, 'choices': ch.choices}
        data = PartitionedDataset(CUBE.copy())
        with controlled(ch, directions=start, max_perm=6):
            data.move_to_labeled(LabeledSet([1., 0.], index=[1, 3]))
            s.learner.fit_data(data)
            opts = options(cfg['K'], False, cfg['bias'])
            best = ch.choose(cfg['retries'])
            s.script = lambda x0: (opts[len(s.log) % len(opts)], 1. - (len(s.log) == best))
            s.learner.fit_data(data)
        subsets = list(itertools.combinations(range(N), min(cfg['sample'], N)))
        if len(s.log) != cfg['retries']:
            s.fail('trainings', '{} optimizations, expected {}'.format(len(s.log), cfg['retries']), case)
            return
        for e in s.log:
            found = [u for u in subsets if matches(e, CUBE[list(u)], s.al.predict(CUBE[list(u)]), cfg['bias'])]
            if len(found) != 1:
                s.fail('swap-data', 'swap model is not trained on predictions of {} points'.format(cfg['sample']), case)
                return
            reached.add(found[0])
        w = s.learner.linear_model.weight_matrix
        if not np.array_equal(w, s.log[best]['x']):
            s.fail('retries', 'weights are {}, expected those of the best retry'.format(w.tolist()), case)
        stats.step()
        stats.state(case)
        stats.outcome('sample')
    explore(execution, stats, limit=3000)
    want = set(itertools.combinations(range(N), min(cfg['sample'], N)))
    if reached != want and not stats.violations:
        stats.violation('samples', 'samples {} never occur'.format(sorted(want - reached)[:5]), {'config': cfg})


def dump(obj, depth=0):
    if depth > 14:
        return '...'
    if isinstance(obj, dict):
        return {str(k): dump(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [dump(v, depth + 1) for v in obj]
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    if isinstance(obj, (int, float, str, bool, type(None))):
        return obj
    return {'class': type(obj).__name__, 'state': dump(getattr(obj, '__dict__', {}), depth + 1)}


def run_defaults(cfg, stats):
    """ options of one learner have no effect on learners created later """
    menu = [{}, {'cars': True}, {'use_exp_decay': False}, {'use_fista': True}, {'use_fista': True, 'cars': True}]
    extra = [{}, {'refine_step_size': 0.7}, {'full_fact': True}, {'use_vs': False}, {'adapt_max_iter': True}, {'full_fact': True, 'use_fact_vs': True, 'fact_penalty': 0.2},
             {'one_hot_groups': [[0, 1], [2]]}, {'num_subspaces': 3, 'retries': 2, 'train_sample_size': 1000}, {'refine_max_iter': 7, 'swap_iter': 3}]
    all_options = [dict(a, **b) for a in menu for b in extra]
    first = [dump(SimplifiedSwapLearner(**o)) for o in all_options]
    base = {str(sorted(o.items())): f for o, f in zip(all_options, first)}
    for o in all_options:
        if 'refine_step_size' in o:
            default = base[str(sorted((k, v) for k, v in o.items() if k != 'refine_step_size'))]
            if base[str(sorted(o.items()))] == default:
                stats.violation('options', 'refine_step_size has no effect: {}'.format(o), o)
    for a, b in itertools.product(range(len(all_options)), repeat=2):
        SimplifiedSwapLearner(**all_options[a])
        stats.executions += 1
        stats.step()
        stats.state(a, b)
        if dump(SimplifiedSwapLearner(**all_options[b])) != first[b]:
            stats.violation('defaults', 'a learner with options {} depends on one created before with {}'.format(all_options[b], all_options[a]), [all_options[a], all_options[b]])
    stats.outcome('defaults')
