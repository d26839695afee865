import itertools

import numpy as np

from aideme.active_learning import (
    DualSpaceModel, FactorizedDualSpaceModel, KernelVersionSpace, SimpleMargin, SimplifiedSwapLearner, SubspatialSimpleMargin, SubspatialVersionSpace, SwapLearner
)
from aideme.explore import LabeledSet, PartitionedDataset, ExplorationManager
from aideme.explore.command_line_explore import CommandLineExploration
from aideme.initial_sampling import fixed_sampler, random_sampler, stratified_sampler
from aideme.utils.metrics import classification_metrics, prediction_entropy, three_set_metric, training_classification_metrics
from aideme.utils.noise import random_noise_injector
from checks import p40
from checks.p11 import Dialogue, answering
from checks.p38 import split
from checks.pool import *
from checks.datasets import System, make_data, batches
from mc.choice import Chooser, controlled, explore

PROPERTY = 'P03'
RULE = 'histories of dataset operations up to the depth of the shard, and complete pool-based explorations (every labeling of <= 3 points, ' \
       'every random outcome, two consecutive runs), with copy on and off; afterwards all objects the caller passed in are compared with ' \
       'what they were. Single operations: every labeled set of <= 3 points with up to 2 partial labels and every outcome of noise injectors, samplers, selections and ' \
       'unions of labeled sets; every metric; and every exported learner, trained on every labeling of 4 points (one of 4 for partial labels) and asked for predictions and points'
ASSUMPTIONS = ['at most 4 points', 'callbacks and learners of the caller do not modify their arguments', 'draws inside of learners follow one fixed pattern']


def configs(tier):
    res = []
    for index in ('default', 'shifted', 'rotated', 'string', 'negative', 'reversed'):
        for copy in (True, False):
            for n_partial in (1, 2):
                res.append({'mode': 'dataset', 'n': 3, 'index': index, 'copy': copy, 'n_partial': n_partial, 'depth': 3 if tier == 'thorough' else 2})
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for sampler in (None, ('fixed', [1, 0]), ('random', 2), ('strat', 1, 1)):
            for copy in (True, False):
                for noise in (None, (1.0, 0), (0.5, 1)):
                    res.append({'mode': 'pool', 'n': n, 'sampler': sampler, 'copy': copy, 'noise': noise})
    res.append({'mode': 'manager'})
    for n in (1, 2, 3):
        for p in (1, 2):
            res.append({'mode': 'labels', 'n': n, 'p': p})
    res.append({'mode': 'metrics'})
    res.append({'mode': 'settings'})
    for name in p40.LEARNERS:
        if name != 'two-steps':
            for copy in (True, False):
                res.append({'mode': 'learner', 'learner': name, 'copy': copy, 'step': 1 if tier == 'thorough' or 'partial' not in p40.LEARNERS[name][1] else 5})
    return res


def rows_permuted(data, index, data0, index0):
    """ data and index are the same permutation of the original ones """
    rows = {i: tuple(x) for i, x in zip(index0, data0.tolist())}
    return sorted(map(repr, index)) == sorted(map(repr, index0)) and all(tuple(x) == rows[i] for i, x in zip(index, data.tolist()))


def run(cfg, stats):
    {'dataset': run_dataset, 'pool': run_pools, 'manager': run_manager, 'labels': run_labels, 'metrics': run_metrics, 'settings': run_settings, 'learner': run_learner}[cfg['mode']](cfg, stats)


def run_dataset(cfg, stats):
    n = cfg['n']
    ops = [('L', b, p) for b in batches(n, 2) if b for p in (1, 2)] + [('I', b) for b in batches(n, 2) if b] + \
          [('U', b) for b in batches(n, 2) if b] + [('L', 'unknown:rev', 1), ('I', 'labeled:all'), ('U', 'labeled:rev'), ('R',), ('C',), ('L', (0, n), 1), ('U', (n,))]
    if cfg['n_partial'] == 2:
        ops += [('P', 0), ('P', 1)]

    def rec(hist):
        s = System(n, cfg['index'], cfg['copy'], cfg['n_partial'])
        stats.current = {'history': hist}
        for op in hist:
            s.apply(op)
        predict(s)
        stats.executions += 1
        stats.step()
        stats.state(s.internal())
        stats.outcome('dataset copy={}'.format(cfg['copy']))

        why = None
        if cfg['copy']:
            if s.user_data.tolist() != s.data0.tolist() or s.user_index.tolist() != s.index0.tolist():
                why = 'data-modified', "caller's arrays became {} {}".format(s.user_index, s.user_data)
        else:
            if cfg['index'] != 'default' and not rows_permuted(s.user_data, s.user_index.tolist(), s.data0, s.index0.tolist()):
                why = 'data-corrupted', "caller's rows are no permutation: {} {}".format(s.user_index, s.user_data)
            if sorted(s.user_data.tolist()) != sorted(s.data0.tolist()):
                why = 'data-corrupted', "caller's rows are no permutation: {}".format(s.user_data)
        for ls, labels, partial, pts in s.labeled_sets:
            if (ls.labels.tolist(), ls.partial.tolist(), ls.index.tolist()) != (labels, partial, pts):
                why = 'labels-modified', 'labeled set became {} {} {}'.format(ls.index, ls.labels, ls.partial.tolist())
        if why:
            stats.violation(why[0], '{}\nhistory: {}\n{}'.format(why[1], hist, cfg), {'history': hist})
        if len(hist) < cfg['depth']:
            for op in ops:
                rec(hist + [op])

    def predict(s):
        learner = RecordingLearner()
        if s.real.labeled_size:
            learner.fit(*s.real.training_set())
        s.real.predict_user_labels(learner)

    rec([])
    stats.sample({'history': [ops[0], ops[-1]]})


def run_pools(cfg, stats):
    n = cfg['n']
    for labels in range(2 ** n):
        s = cfg['sampler']
        k = bin(labels).count('1')
        if s and ((s[0] == 'strat' and (k < 1 or k == n)) or (s[0] == 'fixed' and n > 2 and (labels & 3) in (0, 3))):
            continue
        for index, partial in (('shifted', False), ('rotated', True)):
            full = dict(cfg, labels=labels, index=index, partial=partial, criteria=[('max', 1)], rank='down', skip=2)

            def execution(ch):
                repeat = 2 if n < 3 else 1
                rec = run_pool(full, ch, repeat=repeat)
                stats.state(full, [[m.get('labeled_indexes') for m in r] for r in rec.runs])
                stats.outcome('pool copy={}'.format(cfg['copy']))
                bad = None
                if rec.ls.labels.tolist() != rec.labels or rec.ls.index.tolist() != rec.index0 or \
                        rec.ls.partial.tolist() != ([[x] for x in rec.labels] if rec.partial is None else rec.partial):
                    bad = 'labels-modified', "user's labels became {} {} {}".format(rec.ls.index, rec.ls.labels, rec.ls.partial.tolist())
                elif rec.callbacks != rec.callbacks0 or rec.criteria != rec.criteria0:
                    bad = 'list-modified', "user's callbacks or criteria became {} {}".format(rec.callbacks, rec.criteria)
                elif cfg['copy'] and rec.user_data.tolist() != rec.data0.tolist():
                    bad = 'data-modified', "user's data became {}".format(rec.user_data)
                elif sorted(rec.user_data.tolist()) != sorted(rec.data0.tolist()):
                    bad = 'data-corrupted', "user's rows became {}".format(rec.user_data)
                if bad:
                    stats.violation(bad[0], '{}\n{}'.format(bad[1], full), {'config': full, 'choices': ch.choices})

            explore(execution, stats)


def run_manager(cfg, stats):
    """ lists given to managers and explorations are never extended, and interactive sessions leave the data alone """
    def cb(data, learner):
        return {}

    def crit(manager, metrics):
        return False

    for cbs in ([], [cb], [cb, cb]):
        for crits in ([], [crit], [crit, crit]):
            for maker in ('manager', 'pool', 'cli'):
                c, k = list(cbs), list(crits)
                for _ in range(2):
                    if maker == 'manager':
                        ExplorationManager(PartitionedDataset(make_data(2)), RecordingLearner(), callback=c, convergence_criteria=k).converged()
                    elif maker == 'pool':
                        e = PoolBasedExploration(callback=c, convergence_criteria=k)
                        for r in e.run(make_data(2), [0, 1], RecordingLearner(), repeat=2):
                            list(r)
                    else:
                        expl = CommandLineExploration(callback=c, convergence_criteria=k)
                        for n in (1, 2, 3):
                            for sampler in (None, fixed_sampler([n - 1, 0])):
                                X = make_data(n)
                                with answering(Dialogue(lambda prompt, d: 'y' if 'y/n' in prompt else ' '.join('01'[i % 2] for i in range(prompt.count('.0]'))))):
                                    expl.initial_sampler = sampler if n > 1 else None
                                    expl.run(X, RecordingLearner('down'))
                                stats.check(X.tolist() == make_data(n).tolist(), 'data-modified:cli', "caller's data became {}".format(X.tolist()))
                stats.executions += 1
                stats.step()
                stats.state(maker, len(cbs), len(crits))
                stats.check(c == cbs and k == crits, 'list-modified:' + maker, 'lists became {} {}'.format(c, k))
    stats.outcome('manager')


def frozen(x):
    """ deep copy of lists, dictionaries and arrays, that can be compared """
    if isinstance(x, np.ndarray):
        return 'array', str(x.dtype), x.shape, x.tolist()
    if isinstance(x, LabeledSet):
        return 'labels', frozen(x.labels), frozen(x.partial), frozen(x.index)
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [frozen(v) for v in x]
    return x


def unchanged(stats, key, case, call, *args):
    """ result of call(*args), which must leave its arguments alone """
    before = [frozen(a) for a in args]
    res = call(*args)
    stats.executions += 1
    stats.step()
    after = [frozen(a) for a in args]
    if after != before:
        stats.violation(key, 'arguments of {} became {}, were {}: {}'.format(key, after, before, case), case)
    return res


def run_labels(cfg, stats):
    n, p = cfg['n'], cfg['p']
    rows = list(itertools.product((0, 1), repeat=p))
    for partial in itertools.product(rows, repeat=n):
        labels = [min(r) for r in partial]
        case = {'partial': partial}

        def labeled_set():
            arrays = np.array(labels), None if p == 1 else np.array(partial), np.array([7, 3, 5][:n])
            return arrays, LabeledSet(*arrays)

        for noise, skip, iteration in ((1.0, 0, 1), (0.5, 1, 2), (0.5, 2, 2), (0.0, 0, 3)):
            def execution(ch):
                arrays, ls = labeled_set()
                with controlled(ch, unit=(0.0, 0.999)):
                    unchanged(stats, 'noise-injector', case, lambda a, b: random_noise_injector(noise, skip)(iteration, a), ls, arrays)
                stats.state(case, noise, skip, ch.choices)

            explore(execution, stats)

        def sampling(ch):
            arrays, ls = labeled_set()
            with controlled(ch):
                dataset = PartitionedDataset(make_data(n), np.array([7, 3, 5][:n]))
                for every in (False, True):
                    pos, neg = sum(labels), sum(1 for r in partial if max(r) == 0) if every else n - sum(labels)
                    if pos and neg:
                        unchanged(stats, 'stratified-sampler', case, lambda a, b: stratified_sampler(a, neg_in_all_subspaces=every)(dataset), ls, arrays)
                chosen = [7, 3, 5][:n]
                unchanged(stats, 'fixed-sampler', case, lambda c: fixed_sampler(c)(dataset), chosen)
                random_sampler(1)(dataset)
            stats.state('samplers', case, ch.choices)

        explore(sampling, stats)

        for chosen in itertools.permutations([7, 3, 5][:n]):
            for k in range(1, n + 1):
                arrays, ls = labeled_set()
                sub = unchanged(stats, 'selection', case, lambda a, b, c: a.get_index(c), ls, arrays, list(chosen[:k]))
                other = LabeledSet([1] * 2, [[1] * p] * 2, [10, 11])
                both = unchanged(stats, 'union', case, lambda a, b, c: [a.concat(b), b.concat(a), a.asdict(), a.has_positive_and_negative_labels()], sub, other, arrays)
                for x in both[:2]:
                    unchanged(stats, 'union-noise', case, lambda a, b, c: with_draws(lambda: random_noise_injector(1.0)(1, x)), sub, other, arrays)
        stats.outcome('labels')
    stats.sample(case)


def with_draws(f):
    with controlled(Chooser(())):
        return f()


def run_metrics(cfg, stats):
    names = ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'accuracy', 'precision', 'recall', 'fscore']
    X = make_data(3)
    for labels in itertools.product((0, 1), repeat=3):
        for k in range(1, 4):
            case = {'labels': labels, 'labeled': k}
            y = np.array(labels)
            data, index = X.copy(), np.array([4, 0, 2])
            learner = RecordingLearner()
            learner.polytope_model = RecordingLearner()
            dataset = PartitionedDataset(data, index, copy=False)
            dataset.move_to_labeled(LabeledSet(list(labels[:k]), None, [4, 0, 2][:k]))
            learner.fit(*dataset.training_set())
            learner.polytope_model.fit(*dataset.training_set())
            scores = list(names)
            metric = unchanged(stats, 'classification-metrics', case, classification_metrics, X, y, scores)
            training = unchanged(stats, 'training-metrics', case, training_classification_metrics, scores)
            for key, f in (('classification-metrics', metric), ('training-metrics', training), ('entropy', prediction_entropy), ('tsm', three_set_metric)):
                unchanged(stats, key, case, lambda a, b, c, d: f(dataset, learner), data, index, y, X)
            unchanged(stats, 'predicted-labels', case, lambda a, b, c, d: dataset.predict_user_labels(learner), data, index, y, X)
            stats.state(case)
            stats.outcome('metrics')
    stats.sample(case)


def run_settings(cfg, stats):
    """ partitions, modes and factorizations given to learners """
    fitted = np.array([[0., 0.5], [1., 3.], [2., 1.5], [3.5, 0.]])
    partial = np.array([[1, 1], [0, 1], [1, 0], [0, 0]])
    small = dict(p40.SMALL, rounding=False, decompose=True)
    makers = {
        'factorized-dsm': lambda part, mode: FactorizedDualSpaceModel(SimpleMargin(C=1e3), partition=part, mode=mode),
        'subspace-vs': lambda part, mode: SubspatialVersionSpace(partition=part, loss='PRODUCT', **small),
        'subspace-margin': lambda part, mode: SubspatialSimpleMargin(partition=part, C=1e3),
        'swap': lambda part, mode: SwapLearner(SimpleMargin(C=1e3), p40.linear(), num_subspaces=2, swap_iter=1, prune=False, user_fact=part,
                                               fact_model=FactorizedDualSpaceModel(SimpleMargin(C=1e3), mode=mode), compute_fact_every=1, fact_repeat=1, fact_max_iter=5),
    }
    for name, make in makers.items():
        for part in ([[0], [1]], [[1], [0]], [[0, 1], [1]], [[1, 0], [0]]):
            for mode in (['positive', 'negative'], ['persist', 'positive'], ['negative', 'negative']):
                if name != 'factorized-dsm' and mode[0] != 'positive':
                    continue
                case = {'learner': name, 'partition': part, 'mode': mode}

                def session(part, mode):
                    learner = make(part, mode if name == 'factorized-dsm' else 'persist')
                    dataset = PartitionedDataset(fitted.copy())
                    for batch in ([0, 3], [1], [2]):
                        dataset.move_to_labeled(LabeledSet(partial[batch].min(axis=1), partial[batch], batch))
                        if name == 'subspace-margin' and len(batch) < 2:
                            continue
                        learner.fit_data(dataset)
                        learner.predict(fitted.copy())
                    learner.clear()

                with split(Chooser(()), 'sample', names=('choice',)):
                    unchanged(stats, 'settings', case, session, [list(p) for p in part], list(mode))
                stats.state(case)
                stats.outcome('settings')
    stats.sample(case)


def run_learner(cfg, stats):
    n, name = 4, cfg['learner']
    make, kind = p40.LEARNERS[name]
    index0 = p40.index_of(n)
    count = 0
    for y, partial in p40.labelings(kind, n):
        if len(set(y[:3])) < 2 or (partial is not None and any(len(set(r[s] for r in partial[:3])) < 2 for s in (0, 1))):
            continue
        count += 1
        if count % cfg['step']:
            continue
        case = {'labels': y, 'partial': partial, 'config': cfg}
        with split(Chooser(()), 'sample', names=('choice',)):
            learner = make()
            learner.clear()
            data, index = p40.X[:n].copy(), np.array(index0)
            labels, full = np.array(y), None if partial is None else np.array(partial)
            dataset = PartitionedDataset(data, index, copy=cfg['copy'])
            asked = index0[:3]
            for batch in ([0, 1, 2], [3]):
                ls = LabeledSet(labels[batch], None if full is None else full[batch], [index0[i] for i in batch])
                dataset.move_to_labeled(ls)
                rows = dataset.data.copy(), dataset.training_set(get_partial=True)[1].tolist()
                arrays = [data, index, labels, full, ls]
                if not cfg['copy']:
                    arrays = [dataset.data] + arrays[2:]
                unchanged(stats, 'training', case, lambda *a: learner.fit_data(dataset), *arrays)
                Q = p40.X[[3, 0, 2]].copy()
                unchanged(stats, 'predict', case, lambda q, *a: learner.predict(q), Q, *arrays)
                if name not in p40.NO_PROBA:
                    unchanged(stats, 'probabilities', case, lambda q, *a: learner.predict_proba(q), Q, *arrays)
                if name not in p40.NO_RANK:
                    unchanged(stats, 'rank', case, lambda q, *a: learner.rank(q), Q, *arrays)
                if dataset.unlabeled_size:
                    unchanged(stats, 'next-points', case, lambda *a: learner.next_points_to_label(dataset, None), *(arrays if not cfg['copy'] else arrays))
                unchanged(stats, 'predicted-labels', case, lambda *a: dataset.predict_user_labels(learner), *arrays)
                if dataset.data.tolist() != rows[0].tolist() or dataset.training_set(get_partial=True)[1].tolist() != rows[1]:
                    stats.violation('dataset', 'dataset was changed: {}'.format(case), case)
            if name in DIRECT:
                target = labels if partial is None else full
                batch = data.copy()
                learner.clear()
                unchanged(stats, 'fit', case, lambda a, b: learner.fit(a, b), p40.X[:n].copy(), target)
                flags = p40.X[:n].copy()
                flags.setflags(write=False)
                learner.predict(flags)
        stats.state(case)
        stats.outcome(name)
    stats.sample(case)


DIRECT = ('uncertainty', 'random', 'simple-margin', 'ratio-margin', 'linear-vs', 'linear-vs-plain', 'kernel-vs', 'kernel-vs-plain', 'entropy', 'subspace-vs',
          'subspace-vs-product', 'subspace-margin')
