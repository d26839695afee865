import itertools

import numpy as np

from aideme.active_learning import LinearVersionSpace
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from checks.cones import *
from mc.choice import Chooser, controlled, explore

PROPERTY = 'P23'
RULE = 'every linearly separable labeled set over a grid up to the size of the shard, labeled at once or one by one (in one order, thorough: ' \
       'several), for every sampler setting of the menu: all outcomes of the directions and steps of the menu are enumerated in the last ' \
       'training (earlier ones: a menu of constant outcomes); every sample must separate the labels, and predictions, probabilities and ' \
       'ranks must be those of the samples; after clear, every pair of sessions of a menu gives the samples of a new learner'
ASSUMPTIONS = ['labels are linearly separable', 'directions come from a menu of 2 or 3 generic ones, steps from 2 or 3 fractions of the chord',
               'all random draws go through numpy.random']

GRIDS = {
    'line': [(0,), (1,), (2,), (4,)],
    'ray': [(-2,), (-1,), (1,), (3,)],
    'plane': [(0, 0), (2, 0), (0, 2), (1, 1), (2, 3)],
    'space': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 2)],
}

SETTINGS = [
    {'single_chain': True, 'rounding': True, 'rounding_cache': True, 'cache_samples': True},
    {'single_chain': True, 'rounding': True, 'rounding_cache': False, 'cache_samples': True, 'rounding_options': {'strategy': 'default'}},
    {'single_chain': True, 'rounding': False, 'cache_samples': True},
    {'single_chain': False, 'rounding': False, 'cache_samples': False},
    {'single_chain': False, 'rounding': True, 'rounding_cache': True, 'cache_samples': False, 'rounding_options': {'z_cut': False}},
    {'single_chain': True, 'rounding': True, 'rounding_cache': True, 'cache_samples': True, 'rounding_options': {'sphere_cuts': True}},
    {'single_chain': True, 'rounding': True, 'rounding_cache': True, 'cache_samples': True, 'rounding_options': {'max_iter': 1}},
    {'single_chain': True, 'rounding': True, 'rounding_cache': True, 'cache_samples': True, 'rounding_options': {'strategy': 'default'}},
]
CHAINS = [{'warmup': 1, 'thin': 1, 'n_samples': 2}, {'warmup': 2, 'thin': 1, 'n_samples': 1}, {'warmup': 1, 'thin': 2, 'n_samples': 2}]


def generic(n):
    """ directions in general position, of any length """
    base = np.array([1.0, -0.37, 0.61, 0.23, -0.83, 0.47])[:n]
    return [base, 2.5 * np.roll(base, 1) * np.where(np.arange(n) % 2, 1., -1.), np.linspace(0.31, 1.17, n)]


FRACTIONS = (0.001, 0.47, 0.999)


def configs(tier):
    big = tier == 'thorough'
    res = []
    for s in range(len(SETTINGS)):
        for c in range(len(CHAINS)):
            for grid in GRIDS:
                for intercept in (True, False):
                    if grid in ('line', 'ray') and intercept != (grid == 'line'):
                        continue
                    if not big and (c != (0, 1, 0, 1, 2, 0, 1, 0)[s] or (s and (grid == 'space') == intercept)):
                        continue
                    for k in range(8):
                        res.append({'grid': grid, 'setting': s, 'chain': c, 'intercept': intercept, 'part': [k, 8], 'big': big,
                                    'sizes': [1, 2, 3, 4] if big else [1, 2, 3] if s < 3 else [2, 3]})
    res += [{'mode': 'sessions', 'setting': s, 'big': big} for s in range(len(SETTINGS))]
    res += [{'mode': 'chord', 'dim': d, 'part': [k, 4]} for d in (2, 3) for k in range(4)]
    return res


def constraints(pts, labels, intercept):
    return [tuple((-1 if lb else 1) * v for v in (((1,) if intercept else ()) + p)) for p, lb in zip(pts, labels)]


def run(cfg, stats):
    if cfg.get('mode') == 'chord':
        return run_chord(cfg, stats)
    if cfg.get('mode') == 'sessions':
        return run_sessions(cfg, stats)
    pts = GRIDS[cfg['grid']]
    count = 0
    for size in cfg['sizes']:
        for chosen in itertools.combinations(range(len(pts)), size):
            for labels in itertools.product((0, 1), repeat=size):
                P = [pts[i] for i in chosen]
                if not solid(constraints(P, labels, cfg['intercept'])):
                    continue
                count += 1
                if count % cfg['part'][1] != cfg['part'][0]:
                    continue
                orders = list(itertools.permutations(range(size)))
                for order in orders[::3] if cfg['big'] else orders[count % len(orders):][:1]:
                    history(cfg, [P[j] for j in order], [labels[j] for j in order], stats)


def history(cfg, P, labels, stats):
    """ labels arrive one by one, or all but the last at once """
    options = dict(SETTINGS[cfg['setting']], **CHAINS[cfg['chain']])
    n = len(P)
    queries = np.array(list(itertools.product((-1.5, 0.25, 1.25, 2.5), repeat=len(P[0]))), dtype=float)
    for stages in {(n,), tuple(range(1, n + 1))} | ({(max(1, n - 2), n)} if cfg['big'] else set()):
        case = {'points': P, 'labels': labels, 'stages': stages, 'options': options, 'intercept': cfg['intercept']}

        def execution(ch):
            earlier = [ch.pick(FRACTIONS[:2])] if len(stages) > 1 else []
            learner = LinearVersionSpace(add_intercept=cfg['intercept'], **options)
            for k in stages:
                X, y = np.array(P[:k], dtype=float), np.array(labels[:k], dtype=float)
                last = k == stages[-1]
                if not last:  # outcomes of earlier trainings: constant
                    dirs, fractions = (lambda d: generic(d)[:1]), earlier
                elif cfg['big'] and options['n_samples'] * max(options['warmup'], options['thin']) <= 2:
                    dirs, fractions = generic, FRACTIONS
                else:
                    dirs, fractions = (lambda d: generic(d)[1:]), FRACTIONS[::2]
                with controlled(ch, directions=dirs, fractions=fractions, max_perm=0):
                    learner.fit(X.copy(), y.copy())
                stats.step()
                W = np.c_[learner.clf.bias * np.ones((options['n_samples'], 1)), learner.clf.weight]
                ok = W.shape == (options['n_samples'], 1 + X.shape[1]) and np.all(np.isfinite(W))
                if not stats.check(ok, 'samples', 'samples are {}: {}'.format(W, case), case):
                    return
                if not cfg['intercept'] and np.any(W[:, 0]):
                    return stats.violation('intercept', 'unexpected intercept {}: {}'.format(W[:, 0], case), case)
                margins = W @ np.c_[np.ones(k), X].T
                if np.linalg.norm(W, axis=1).max() > 1 + 1e-9 or not np.all((margins > 0) == (y == 1)) or np.any(margins == 0):
                    return stats.violation('outside', 'sample is not in the version space: margins of {} are {}: {}'.format(W, margins, case), case)
                proba = learner.predict_proba(X)
                if proba.tolist() != y.tolist() or learner.predict(X).tolist() != y.tolist():
                    return stats.violation('training-labels', 'probabilities of training points are {}: {}'.format(proba, case), case)
                Q = queries
                mq = W @ np.c_[np.ones(len(Q)), Q].T
                if np.abs(mq).min() > 1e-9:
                    want = (mq > 0).mean(axis=0)
                    got = learner.predict_proba(Q)
                    if not np.allclose(got, want, atol=1e-12) or not np.allclose(learner.rank(Q), np.abs(want - 0.5), atol=1e-12) \
                            or learner.predict(Q).tolist() != (want > 0.5).astype(float).tolist():
                        return stats.violation('predictions', 'predictions of samples {} are {}: {}'.format(W, got, case), case)
                stats.state(case, np.round(W, 9).tolist())

        explore(execution, stats)
        stats.outcome('{} labels in {} trainings'.format(n, len(stages)))
    stats.sample(case)


def run_sessions(cfg, stats):
    """ after clear, the learner behaves as a new one over any other data, under the same outcomes of its random draws """
    options = dict(SETTINGS[cfg['setting']], **CHAINS[0])
    menu = []
    for grid in GRIDS:
        for size in (2, 3):
            found = 0
            for chosen in itertools.combinations(GRIDS[grid], size):
                for labels in itertools.product((0, 1), repeat=size):
                    if solid(constraints(chosen, labels, True)) and found < (3 if cfg['big'] else 2):
                        found += 1
                        menu.append((chosen, labels))
                        menu.append((chosen, tuple(1 - lb for lb in labels)))

    def session(learner, points, labels, fraction):
        with controlled(Chooser(), directions=lambda d: generic(d)[:1], fractions=(fraction,), max_perm=0):
            learner.fit(np.array(points, dtype=float), np.array(labels, dtype=float))
        return np.c_[learner.clf.bias * np.ones((options['n_samples'], 1)), learner.clf.weight]

    for first in menu:
        for second in menu:
            for fraction in (0.1, 0.85):
                stats.current = {'first': first, 'second': second}
                learner = LinearVersionSpace(**options)
                session(learner, *first, fraction)
                learner.clear()
                got, want = session(learner, *second, 0.4), session(LinearVersionSpace(**options), *second, 0.4)
                stats.executions += 1
                stats.step(3)
                if got.shape != want.shape or not np.allclose(got, want, atol=1e-9):
                    stats.violation('clear', 'after {} and clear, training with {} gives samples {}, expected {} (as a new learner)'.format(first, second, got, want),
                                    {'first': first, 'second': second})
                stats.state('sessions', first, second, np.round(got, 9).tolist())
    stats.outcome('sessions')
    stats.sample({'sessions': [first, second]})


def run_chord(cfg, stats):
    """ steps with fractions close to 0 and 1 reach both ends of the chord, so that no part of the version space is cut off """
    dim = cfg['dim']
    for k, rows in enumerate(cones(dim, (-1, 0, 1), 2)):
        if k % cfg['part'][1] != cfg['part'][0] or not solid(rows):
            continue
        A = np.array(rows, dtype=float)
        reached = []

        def execution(ch):
            s = HitAndRunSampler(single_chain=True, warmup=1, thin=1, rounding=False, cache_samples=False)
            with controlled(ch, directions=generic, fractions=(0.0, 1.0), max_perm=0):
                x = s.sample(-A, np.ones(len(A)), 1)[0]
            reached.append(x)
            stats.step()
            m, r = (A @ x).max(), np.linalg.norm(x)
            if m > 1e-9 or r > 1 + 1e-9:
                return stats.violation('outside', 'sample {} is outside of the version space {}'.format(x, rows), {'rows': rows})
            if m < -1e-9 and r < 1 - 1e-9:
                return stats.violation('chord', 'end {} of a chord is not on the boundary of the version space {}'.format(x, rows), {'rows': rows})
            stats.state(rows, np.round(x, 9).tolist())

        explore(execution, stats)
        a = np.array(reached)
        if len(np.unique(np.round(a, 6), axis=0)) < len(a):
            stats.violation('chord-ends', 'different draws give the same end of the chord {}: {}'.format(a, rows), {'rows': rows})
        stats.outcome('chord')
    stats.sample({'constraints': rows})
