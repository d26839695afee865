import builtins
import contextlib
import io
import itertools
import math
import os
import re
import shutil
import sys
import tempfile
import types

import numpy as np

from mc.choice import explore
from checks.p26 import value

PROPERTY = 'P41'
RULE = 'for every labeling of every sequence of training points of a grid up to the size of the shard, every prior, scale, intercept, chain setting and kernel of the ' \
       'menu: the request made to Stan is interpreted (density of the model at a grid of weights, given data, number of samples kept), all outcomes of its samples ' \
       'over a menu are enumerated and probabilities, labels and ranks are compared with their averages; every session of trainings and clears; every sequence of ' \
       'creations of learners sharing saved models; and every position of the file operations at which a process can die while saving one'
ASSUMPTIONS = ['Stan is replaced by an interpreter of its language, samples come from a menu', 'at most 3 training points',
               'crashes: what was written before a process dies is in the file, in order']


# ------------------------------------------------------------------------------------------------- replacement of Stan
class NotUnderstood(Exception):
    pass


class World:
    """ what was asked to Stan, and what it answers """
    calls, answer, code = [], None, None


class StanModel:
    def __init__(self, file=None, charset='utf-8', model_name='anon_model', model_code=None, **kwargs):
        if not isinstance(model_code, str):
            raise ValueError('model code is {}'.format(model_code))
        self.model_code = model_code

    def sampling(self, data=None, pars=None, chains=4, iter=2000, warmup=None, thin=1, **kwargs):
        warmup = iter // 2 if warmup is None else warmup
        if warmup >= iter or thin < 1 or chains < 1:
            raise ValueError('invalid numbers of iterations: {} {} {} {}'.format(iter, warmup, thin, chains))
        data = {k: np.array(v) for k, v in data.items()}
        n = -(-(iter - warmup) // thin) * chains
        call = {'code': self.model_code, 'data': data, 'samples': n, 'warmup': warmup, 'thin': thin}
        World.calls.append(call)
        name, dim = parameter(self.model_code, data)
        samples = np.array([World.answer(dim) for _ in range(n)]).reshape(n, dim)
        call['beta'] = samples.copy()
        return types.SimpleNamespace(extract=lambda *a, **k: {name: samples, 'lp__': np.zeros(n)})


def block(code, name):
    code = re.sub(r'//[^\n]*', '', code)
    m = re.search(r'(?<![\w ])\s*\b' + name + r'\s*\{([^{}]*)\}', code)
    return m.group(1) if m else None


def scalars(data):
    return {k: v.item() for k, v in data.items() if v.ndim == 0}


def parameter(code, data):
    """ name and size of the vector of weights """
    try:
        m = re.fullmatch(r'\s*vector\s*(?:<[^>]*>)?\s*\[([^\]]*)\]\s*(\w+)\s*;\s*', block(code, 'parameters'))
        return m.group(2), int(eval(m.group(1), {'__builtins__': {}}, scalars(data)))
    except Exception:
        xs = [v for v in data.values() if v.ndim == 2]
        return 'beta', xs[0].shape[1]


def declared_integers(code):
    return re.findall(r'\bint\b\s*(?:<[^>]*>)?\s*(\w+)', block(code, 'data') or '')


def log_density(code, data, beta):
    """ logarithm of the density of the model, up to a constant """
    body = block(code, 'model')
    if body is None:
        raise NotUnderstood(code)
    name, _ = parameter(code, data)
    env = {k: v.item() if v.ndim == 0 else np.matrix(v.reshape(-1, 1) if v.ndim == 1 else v) for k, v in data.items()}
    env[name] = np.matrix(np.array(beta, dtype=float).reshape(-1, 1))
    env.update(sqrt=np.sqrt, square=np.square, inv_logit=sigmoid, exp=np.exp, log=np.log, __builtins__={})
    total = 0.
    for st in body.split(';'):
        if not st.strip():
            continue
        m = re.fullmatch(r'\s*(\w+)\s*~\s*(\w+)\s*\((.*)\)\s*', st, re.S)
        if not m:
            raise NotUnderstood(st)
        try:
            var = np.asarray(env[m.group(1)], dtype=float)
            args = eval('[' + m.group(3).replace('^', '**') + ']', env)
        except Exception as e:
            raise NotUnderstood('{}: {}'.format(st, e))
        args = [np.asarray(a, dtype=float) for a in args]
        dist = m.group(2)
        if dist == 'bernoulli_logit':
            t = np.broadcast_to(args[0], var.shape)
            total -= np.logaddexp(0, np.where(var == 1, -t, t)).sum()
        elif dist == 'normal':
            total -= (0.5 * ((var - args[0]) / args[1]) ** 2).sum()
        elif dist == 'cauchy':
            total -= np.log1p(((var - args[0]) / args[1]) ** 2).sum()
        else:
            raise NotUnderstood(dist)
    return total


sys.modules['pystan'] = types.ModuleType('pystan')
sys.modules['pystan'].StanModel = StanModel

from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace  # noqa: E402

POINTS = {1: [(0.,), (1.,), (-2.,)], 2: [(0., 0.), (1., 0.), (-1., 2.)]}
KERNELS = [{'kernel': 'rbf'}, {'kernel': 'linear'}, {'kernel': 'poly', 'degree': 2, 'coef0': 1.}]
PRIORS = ('gaussian', 'cauchy', 'improper')


def configs(tier):
    big = tier == 'thorough'
    res = []
    for dim in (1, 2):
        for prior in PRIORS:
            for std in (0.5, 1., 3.):
                for intercept in (True, False):
                    res += [{'mode': 'linear', 'dim': dim, 'prior': prior, 'std': std, 'intercept': intercept, 'size': s, 'big': big} for s in ((1, 2) if not big else (1, 2, 3))]
            res += [{'mode': 'kernel', 'dim': dim, 'prior': prior, 'kernel': k, 'intercept': i, 'size': s, 'big': big}
                    for k in range(len(KERNELS)) for i in (True, False) for s in ((1, 2) if not big else (1, 2, 3))]
    res += [{'mode': 'session', 'kind': k, 'prior': p, 'depth': 3 if not big else 4, 'intercept': i} for k in ('linear', 'kernel') for p in PRIORS for i in (True, False)]
    res += [{'mode': 'saved', 'first': f, 'depth': 3 if not big else 4} for f in PRIORS + ('other',)]
    res += [{'mode': 'crash', 'prior': p, 'next': q, 'grain': 1 if big else 16} for p in PRIORS for q in PRIORS]
    return res + [{'mode': 'arguments'}]


@contextlib.contextmanager
def scratch():
    """ models are saved below the working directory """
    folder, cwd = tempfile.mkdtemp(prefix='verif-p41-'), os.getcwd()
    os.chdir(folder)
    try:
        yield folder
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder)


def run(cfg, stats):
    with scratch():
        globals()['run_' + cfg['mode']](cfg, stats)


def sigmoid(t):
    return 0.5 * (1 + np.tanh(0.5 * np.asarray(t, dtype=float)))


def prior_density(prior, std, w):
    if prior == 'gaussian':
        return sum(-0.5 * (v / std) ** 2 for v in w)
    if prior == 'cauchy':
        return sum(-math.log1p((v / std) ** 2) for v in w)
    return 0.


def check_request(stats, call, F, y, prior, std, setting, case):
    """ the call asks for samples of the posterior distribution, given rows of F and their labels """
    if setting is not None and (call['samples'], call['warmup'], call['thin']) != setting:
        stats.violation('chain', 'number of samples, warmup and thinning are {}, expected {}: {}'.format((call['samples'], call['warmup'], call['thin']), setting, case), case)
        return False
    for name in declared_integers(call['code']):
        if name in call['data'] and call['data'][name].dtype.kind not in 'iu':
            stats.violation('types', 'integers are expected for {} in Stan, it is {}: {}'.format(name, call['data'][name], case), case)
            return False
    dim = len(F[0])
    if parameter(call['code'], call['data'])[1] != dim:
        stats.violation('weights', 'model has {} weights, expected {}: {}'.format(parameter(call['code'], call['data'])[1], dim, case), case)
        return False
    betas = [[0.] * dim] + [[v if k == i else 0.25 * k for k in range(dim)] for i in range(dim) for v in (-2., -0.5, 1., 3.)]

    def expected(b):
        res = prior_density(prior, std, b)
        for f, lb in zip(F, y):
            m = sum(u * v for u, v in zip(f, b)) * (1 if lb == 1 else -1)
            res -= np.logaddexp(0, -m)
        return res
    try:
        got = [log_density(call['code'], call['data'], b) for b in betas]
    except NotUnderstood:
        stats.outcome('model not understood')
        return True
    want = [expected(b) for b in betas]
    for b, g, w in zip(betas, got, want):
        if not abs((g - got[0]) - (w - want[0])) < 1e-6 * (1 + abs(w)):
            stats.violation('posterior', 'samples come from another distribution: log density of {} relative to 0 is {}, expected {}\nmodel: {}\ndata: {}\n{}'.format(
                b, g - got[0], w - want[0], call['code'], call['data'], case), case)
            return False
    return True


def check_answers(stats, learner, feature, samples, queries, case):
    """ :param feature: row of the design matrix for a point """
    Q = np.array(queries)
    F = [feature(q) for q in queries]
    want = [sum(float(sigmoid(sum(u * v for u, v in zip(f, b)))) for b in samples) / len(samples) for f in F]
    for name, idx in (('all', list(range(len(Q)))), ('last', [len(Q) - 1])):
        P, R, L = learner.predict_proba(Q[idx]), learner.rank(Q[idx]), learner.predict(Q[idx])
        stats.step()
        if not all(np.shape(v) == (len(idx),) for v in (P, R, L)):
            stats.violation('shapes', 'shapes of predictions are {} {} {}: {}'.format(np.shape(P), np.shape(R), np.shape(L), case), case)
            return False
        for i, p, r, lb in zip(idx, P, R, L):
            if not abs(p - want[i]) < 1e-9:
                stats.violation('probability', 'probability of {} is {}, mean over samples {} is {}: {}'.format(queries[i], p, samples, want[i], case), case)
                return False
            if not abs(r - abs(p - 0.5)) < 1e-9:
                stats.violation('rank', 'rank of {} is {}, probability is {}: {}'.format(queries[i], r, p, case), case)
                return False
            if abs(p - 0.5) > 1e-9 and lb != (p > 0.5):
                stats.violation('label', 'label of {} is {}, probability is {}: {}'.format(queries[i], lb, p, case), case)
                return False
    stats.state(samples.tolist(), queries, want)
    return True


def menu(dim, ch):
    """ next sample: zero, or a vector of a given pattern """
    k = ch.choose(3)
    return [0.] * dim if k == 0 else [1. - i for i in range(dim)] if k == 1 else [-2.5 + 2 * i for i in range(dim)]


def sampled(stats, make, feature, X, y, prior, std, setting, queries, case):
    """ all outcomes of the samples """
    def execution(ch):
        World.calls, World.answer = [], lambda dim: menu(dim, ch)
        learner = make()
        data, labels = np.array(X), np.array(y)
        learner.fit(data, labels)
        if data.tolist() != [list(x) for x in X] or labels.tolist() != list(y):
            return stats.violation('arguments', 'training data was changed: {}'.format(case), case)
        if not World.calls:
            return stats.violation('no-samples', 'no samples were asked for: {}'.format(case), case)
        call = World.calls[-1]
        if ch.choices == [0] * len(ch.choices) and not check_request(stats, call, [feature(x) for x in X], y, prior, std, setting, case):
            return
        if check_answers(stats, learner, feature, call['beta'], queries, case):
            stats.outcome(prior)

    explore(execution, stats)


def labelings(size, pts):
    for chosen in itertools.product(pts, repeat=size):
        for y in itertools.product((0, 1), repeat=size):
            yield list(chosen), y


def run_linear(cfg, stats):
    pts = POINTS[cfg['dim']]
    settings = [(1, 5, 1), (2, 3, 4)] + ([(3, 1, 2)] if cfg['big'] else [])
    for k, (X, y) in enumerate(labelings(cfg['size'], pts)):
        n, warmup, thin = settings[k % len(settings)]
        case = {'X': X, 'y': y, 'samples': n, 'warmup': warmup, 'thin': thin}
        kind = (int, float)[k % 2]
        sampled(stats, lambda: BayesianLinearVersionSpace(n_samples=n, warmup=warmup, thin=thin, add_intercept=cfg['intercept'], sampler='stan', prior=cfg['prior'], prior_std=cfg['std']),
                lambda x: ([1.] if cfg['intercept'] else []) + list(x), X, [kind(v) for v in y], cfg['prior'], cfg['std'], (n, warmup, thin), pts + [tuple(0.5 - v for v in p) for p in pts], case)
    stats.sample(case)


def run_kernel(cfg, stats):
    pts, spec = POINTS[cfg['dim']], KERNELS[cfg['kernel']]
    for k, (X, y) in enumerate(labelings(cfg['size'], pts)):
        n = 1 + k % 2
        case = {'X': X, 'y': y, 'samples': n, 'kernel': spec}
        sampled(stats, lambda: BayesianKernelVersionSpace(n_samples=n, warmup=3, thin=2, add_intercept=cfg['intercept'], sampler='stan', prior=cfg['prior'], prior_std=2., **spec),
                lambda x: ([1.] if cfg['intercept'] else []) + [value(spec, x, t) for t in X], X, y, cfg['prior'], 2., (n, 3, 2), pts + [tuple(0.5 - v for v in p) for p in pts], case)
    stats.sample(case)


TRAININGS = [([(0., 1.)], [1]), ([(0., 1.), (2., 0.)], [1, 0]), ([(1., 1.), (1., 1.), (-1., 0.)], [0, 1, 0])]


def run_session(cfg, stats):
    spec = {'kernel': 'rbf', 'gamma': 0.5}
    queries = [(0., 1.), (2., 0.), (-1., 0.), (0.5, 0.5)]
    for depth in range(1, cfg['depth'] + 1):
        for hist in itertools.product(('clear', 0, 1, 2), repeat=depth):
            if hist[-1] == 'clear':
                continue
            case = {'history': hist}

            def execution(ch):
                common = dict(n_samples=2, warmup=4, thin=3, add_intercept=cfg['intercept'], sampler='stan', prior=cfg['prior'], prior_std=0.7)
                learner = BayesianLinearVersionSpace(**common) if cfg['kind'] == 'linear' else BayesianKernelVersionSpace(**common, **spec)
                script = iter(itertools.count())
                World.answer = lambda dim: menu(dim, ch) if left[0] == 0 else [(-1.) ** next(script)] * dim
                left = [depth]
                for op in hist:
                    left[0] -= 1
                    if op == 'clear':
                        learner.clear()
                        continue
                    X, y = TRAININGS[op]
                    World.calls = []
                    learner.fit(np.array(X), np.array(y))
                    feature = lambda x: ([1.] if cfg['intercept'] else []) + (list(x) if cfg['kind'] == 'linear' else [value(spec, x, t) for t in X])
                    if not check_request(stats, World.calls[-1], [feature(x) for x in X], y, cfg['prior'], 0.7, (2, 4, 3), case):
                        return
                    if not check_answers(stats, learner, feature, World.calls[-1]['beta'], queries, case):
                        return
                stats.outcome('session')
            explore(execution, stats)
    stats.sample(case)


def use(stats, prior, std, case):
    """ a new learner samples from the posterior distribution of its own prior """
    World.calls, World.answer = [], lambda dim: [1.] * dim
    learner = BayesianLinearVersionSpace(n_samples=1, warmup=1, thin=1, sampler='stan', prior=prior, prior_std=std)
    X, y = TRAININGS[1]
    learner.fit(np.array(X), np.array(y))
    stats.step()
    return check_request(stats, World.calls[-1], [(1.,) + x for x in X], y, prior, std, None, case)


def run_saved(cfg, stats):
    """ learners created one after another in the same folder """
    stds = (0.5, 2., 1.)
    for existing in (False, True):
        for depth in range(1, cfg['depth'] + 1):
            for rest in itertools.product(PRIORS + ('other',), repeat=depth - 1):
                hist = (cfg['first'],) + rest
                case = {'folder exists': existing, 'history': hist}
                with scratch():
                    if existing:
                        os.mkdir('stan_models')
                    for k, prior in enumerate(hist):
                        stats.state(existing, hist[:k + 1])
                        if prior == 'other':
                            try:
                                BayesianLinearVersionSpace(sampler='stan', prior='other')
                                stats.violation('accepts-prior', 'unknown prior is accepted: {}'.format(case), case)
                                break
                            except ValueError:
                                continue
                        if not use(stats, prior, stds[k % 3], case):
                            break
                    stats.executions += 1
    stats.outcome('saved')
    stats.sample(case)


class Dying:
    """ file whose process dies once a given number of further file operations took place """
    def __init__(self, file, clock, grain):
        self.file, self.clock, self.grain = file, clock, grain

    def write(self, data):
        data = bytes(data) if not isinstance(data, str) else data
        for i in range(0, len(data), self.grain):
            if self.clock[0] <= 0:
                self.file.flush()
                os._exit(3)
            self.clock[0] -= 1
            self.file.write(data[i:i + self.grain])
        return len(data)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.file.close()

    def __getattr__(self, name):
        return getattr(self.file, name)


def die_while_saving(prior, steps, grain):
    """ creates a learner in another process, which dies after a number of file operations (writes are split into pieces). :return: exit code """
    pid = os.fork()
    if pid:
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    try:
        clock = [steps]

        def tick(f):
            def wrapped(*args, **kwargs):
                if clock[0] <= 0:
                    os._exit(3)
                clock[0] -= 1
                return f(*args, **kwargs)
            return wrapped
        real = builtins.open

        def dying_open(file, mode='r', *args, **kwargs):
            if not any(c in mode for c in 'wax+'):
                return real(file, mode, *args, **kwargs)
            return Dying(tick(real)(file, mode, *args, **kwargs), clock, grain)
        builtins.open = io.open = dying_open
        for name in ('replace', 'rename', 'makedirs', 'mkdir', 'link', 'remove', 'unlink'):
            setattr(os, name, tick(getattr(os, name)))
        BayesianLinearVersionSpace(sampler='stan', prior=prior)
        os._exit(0)
    except BaseException:
        os._exit(4)


def run_crash(cfg, stats):
    steps = 0
    while True:
        with scratch():
            code = die_while_saving(cfg['prior'], steps, cfg['grain'])
            stats.executions += 1
            stats.state(cfg['prior'], steps)
            case = {'prior': cfg['prior'], 'file operations before the crash': steps, 'bytes per write': cfg['grain'], 'then': cfg['next']}
            if code == 4:
                return stats.violation('creation', 'learner could not be created: {}'.format(case), case)
            for prior in (cfg['next'], cfg['prior'], cfg['next']):
                try:
                    ok = use(stats, prior, 1., case)
                except Exception as e:
                    return stats.violation('unusable', '{} learner fails after a crash: {!r}\n{}'.format(prior, e, case), case)
                if not ok:
                    return
        if code == 0:
            break
        steps += 1
    stats.outcome('crash')
    stats.sample(case)


def run_arguments(cfg, stats):
    for cls in (BayesianLinearVersionSpace, BayesianKernelVersionSpace):
        for bad in ({'warmup': 0}, {'warmup': -1}, {'warmup': 0.5}, {'thin': 0}, {'thin': -3}, {'prior_std': 0}, {'prior_std': -1.}, {'prior': 'uniform'}):
            try:
                cls(**{**{'sampler': 'stan'}, **bad})
                stats.violation('accepts-argument', '{} is accepted'.format(bad), bad)
            except ValueError:
                stats.executions += 1
                stats.state(cls.__name__, bad)
        try:
            cls(sampler='other')
            stats.violation('accepts-argument', 'unknown sampler is accepted')
        except ValueError:
            pass
    stats.outcome('arguments')
