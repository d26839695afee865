import copy
import itertools
import pickle

import numpy as np

from aideme.active_learning.dsm.model import FactorizedPolytopeModel, PolytopeModel
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.active_learning.dsm import DualSpaceModel
from checks.p21 import Stub
from checks.polytopes import *

PROPERTY = 'P22'
RULE = 'every labeled set over a grid in 1, 2 and 3 dimensions (and every sequence of categories, sets and partial labels) up to the size of ' \
       'the shard, in several orders and batches: after every batch the model is pickled and deep-copied; copies and original must answer ' \
       'alike, stay independent of each other, and answer alike after all further batches (quick: every 8th set of 5 points in 3 dimensions, every ' \
       '14th one in 2, every second combination of partial labels); a tolerance other than the default in 2 dimensions'
ASSUMPTIONS = ['points have small integer coordinates', 'copies are made between updates']

ROWS = [(0, 0, 1, 0), (2, 4, 0, 1), (4, 2, 1, 0), (2, 0, 1, 1)]
FQ = [(a, b, c, 1 - c) for a in (-1, 0, 1, 2, 3, 4, 5) for b in (-1, 0, 1, 3, 4) for c in (0, 1)]


def configs(tier):
    big = tier == 'thorough'
    res = []
    for mode in ('persist', 'positive', 'negative'):
        for size in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5):
            res.append({'grid': 'line5', 'mode': mode, 'size': size, 'part': [0, 1]})
        for size in (2, 3, 4) if not big else (2, 3, 4, 5):
            if size == 4 and not big and mode != 'persist':
                continue
            parts = 1 if size < 4 else 16
            res += [{'grid': 'square3', 'mode': mode, 'size': size, 'part': [k, parts]} for k in range(parts)]
        res += [{'grid': 'square3', 'mode': mode, 'size': 3, 'part': [k, 2], 'tol': 0.237} for k in range(2)]
        if mode == 'persist' or big:
            res += [{'grid': 'cube', 'mode': mode, 'size': 5, 'part': [k, 16], 'sparse': 1 if big else 8} for k in range(16)]
            res += [{'grid': 'skew', 'mode': mode, 'size': 5, 'part': [k, 16], 'sparse': 1 if big else 14} for k in range(16)]
    for mode, partition in ((['persist', 'categorical'], [[0], [2, 3]]), (['negative', 'multiset'], [[0, 1], [2, 3]]), (['positive', 'persist'], [[0], [1]])):
        res += [{'factorized': mode, 'partition': partition, 'size': 3 if not big else 4, 'part': [k, 8], 'sparse': 1 if big else 2} for k in range(8)]
    for mode in ('categorical', 'multiset'):
        res.append({'single': mode, 'size': 4 if not big else 5})
    res.append({'dsm': True})
    return res


def clones(m):
    yield 'pickle', lambda: pickle.loads(pickle.dumps(m))
    yield 'deepcopy', lambda: copy.deepcopy(m)


def check(make, batches, Q, stats, case):
    """ batches: list of (X, y) """
    stats.current = case
    stats.executions += 1

    def answers(m):
        return bool(m.is_valid), m.predict(Q).tolist()

    plain = make()
    expect = [answers(plain)]
    for X, y in batches:
        plain.update(X.copy(), y.copy())
        expect.append(answers(plain))
        if not plain.is_valid:
            break

    batches = batches[:len(expect) - 1]
    m = make()
    for k in range(len(expect)):
        for name, f in clones(m):
            stats.step()
            c = f()
            if answers(c) != expect[k]:
                return stats.violation('copy-differs', '{} after batch {}: {}, original: {}\n{}'.format(name, k, *diff(answers(c), expect[k], Q), case), case)
            for j in range(k, len(batches)):
                try:
                    c.update(batches[j][0].copy(), batches[j][1].copy())
                except Exception as e:
                    return stats.violation('copy-update', '{} after batch {} fails at batch {}: {!r}\n{}'.format(name, k, j, e, case), case)
                if answers(c) != expect[j + 1]:
                    return stats.violation('copy-diverges', '{} after batch {}, then batch {}: {}, original: {}\n{}'.format(
                        name, k, j, *diff(answers(c), expect[j + 1], Q), case), case)
            if answers(m) != expect[k]:
                return stats.violation('not-independent', 'updating a {} changed the original\n{}'.format(name, case), case)
            if name != 'pickle':
                c.clear()
                if answers(m) != expect[k] or answers(c) != expect[0]:
                    return stats.violation('clear', 'clearing a {}: {}\n{}'.format(name, answers(c), case), case)
        if k < len(batches):
            m.update(batches[k][0].copy(), batches[k][1].copy())
    stats.state(case)
    stats.outcome('valid' if expect[-1][0] else 'invalid')


def diff(a, b, Q):
    if a[0] != b[0]:
        return 'valid: {}'.format(a[0]), 'valid: {}'.format(b[0])
    bad = [(q.tolist(), x, y) for q, x, y in zip(Q, a[1], b[1]) if x != y][:3]
    return [(q, x) for q, x, y in bad], [(q, y) for q, x, y in bad]


def run(cfg, stats):
    if 'grid' in cfg:
        points, Q = GRIDS[cfg['grid']][0], arr(GRIDS[cfg['grid']][1])
        tol = cfg.get('tol', 1e-12)
        if 'tol' in cfg:
            Q = np.vstack([Q + [a, b] for a in (-0.2, 0., 0.11) for b in (-0.11, 0., 0.2)])
        for k, labeled in enumerate(labeled_sets(cfg['grid'], cfg['size'], reduce=cfg['grid'] == 'square3')):
            if k % cfg['part'][1] != cfg['part'][0] or (k // cfg['part'][1]) % cfg.get('sparse', 1):
                continue
            for name, delivery in deliveries(labeled)[1:] or deliveries(labeled):
                batches = [(arr([points[p] for p, _ in b]), np.array([lb for _, lb in b], dtype=float)) for b in delivery]
                check(lambda: PolytopeModel(cfg['mode'], tol), batches, Q, stats, {'mode': cfg['mode'], 'grid': cfg['grid'], 'tolerance': tol, 'batches': delivery})
            stats.sample({'batches': delivery})
    elif 'factorized' in cfg:
        n, Q = cfg['size'], arr(FQ)
        for pts in itertools.permutations(range(4), n):
            for k, partial in enumerate(itertools.product(itertools.product((0, 1), repeat=2), repeat=n)):
                if k % cfg['part'][1] != cfg['part'][0] or (k // 8 + sum(pts[:2])) % cfg['sparse']:
                    continue
                batches = [(arr([ROWS[p]]), np.array([q], dtype=float)) for p, q in zip(pts, partial)]
                check(lambda: FactorizedPolytopeModel(cfg['partition'], cfg['factorized']), batches, Q, stats,
                      {'mode': cfg['factorized'], 'partition': cfg['partition'], 'points': pts, 'partial': partial})
        stats.sample({'points': pts, 'partial': partial})
    elif 'single' in cfg:
        rows = np.eye(3).tolist() if cfg['single'] == 'categorical' else list(itertools.product((0., 1.), repeat=3))[1:]
        items = [(tuple(r), lb) for r in rows for lb in (0, 1)]
        n = cfg['size'] if cfg['single'] == 'categorical' else cfg['size'] - 1
        for seq in itertools.permutations(items, n):
            batches = [(arr([r]), np.array([lb], dtype=float)) for r, lb in seq]
            check(lambda: PolytopeModel(cfg['single']), batches, arr(rows), stats, {'mode': cfg['single'], 'sequence': seq})
        stats.sample({'sequence': seq})
    else:
        run_dsm(cfg, stats)


def run_dsm(cfg, stats):
    """ complete dual space models and datasets, copied together in the middle of an exploration """
    rows = arr([(0, 0), (4, 0), (0, 4), (4, 4), (2, 2)])
    Q = arr([(a, b) for a in range(-1, 6) for b in range(-1, 6)])
    for labels in itertools.product((0, 1), repeat=5):
        for mode in ('persist', 'positive'):
            def step(learner, data, batch):
                data.move_to_labeled(LabeledSet([labels[i] for i in batch], index=[10 + i for i in batch]))
                learner.fit_data(data)

            def answers(learner, data):
                return (learner.predict(Q).tolist(), sorted(data.inferred.index.tolist()), sorted(data.labeled.index.tolist()),
                        data.training_set()[0].tolist(), data.training_set()[1].tolist(), data.unknown.data.tolist(), bool(learner.polytope_model.is_valid))

            plan = [(0, 1), (3,), (2,), (4,)]
            pair = (DualSpaceModel(Stub('up'), mode=mode), PartitionedDataset(rows, np.arange(10, 15)))
            expect = []
            for batch in plan:
                step(*pair, batch)
                expect.append(answers(*pair))
            pair = (DualSpaceModel(Stub('up'), mode=mode), PartitionedDataset(rows, np.arange(10, 15)))
            for k, batch in enumerate(plan):
                step(*pair, batch)
                stats.executions += 1
                stats.current = {'labels': labels, 'mode': mode}
                for name, f in clones(pair):
                    c = f()
                    stats.step()
                    stats.check(answers(*c) == expect[k], 'dsm-copy', '{} after batch {} of {} differs'.format(name, k, labels))
                    for j in range(k + 1, len(plan)):
                        step(*c, plan[j])
                        stats.check(answers(*c) == expect[j], 'dsm-copy-diverges', '{} after batch {} of {} differs at batch {}'.format(name, k, labels, j))
                    stats.check(answers(*pair) == expect[k], 'dsm-not-independent', 'changes of a {} after batch {} of {} reach the original'.format(name, k, labels))
                stats.state(labels, mode, k)
            stats.outcome('dsm')
    stats.sample({'labels': labels})
