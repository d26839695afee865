from checks.datasets import *

PROPERTY = 'P02'
RULE = 'every history of labeling / un-labeling / partial label operations up to the depth of the shard (no merging), and breadth-first ' \
       'search over the states of the real object (row order, partitions, labels, last batch) to a fixpoint; in every state the training ' \
       'sets and labeled set are compared row by row with a dictionary model'
ASSUMPTIONS = ['index values are hashable and distinct', 'at most 4 points', '1 to 3 partial labels', 'single thread']


def alphabet(n, n_partial, kind):
    ops = []
    if kind == 'single':
        ops += [('L', (i,), p) for i in range(n) for p in (0, 1)]
        ops += [('I', (i,)) for i in range(n)] + [('U', (i,)) for i in range(n)]
    else:
        ops += [('L', (i,), i & 1) for i in range(n)]
        ops += [('L', b, p) for b in batches(n, 2) if len(b) == 2 for p in (0b01, 0b10)]
        ops += [('L', tuple(range(n))[::-1], 0b01), ('L', (0, 0), 1), ('L', (0, n), 1), ('L', (), 1), ('L', 'unknown:rev', 0b01), ('L', 'unlabeled:tail', 0b10)]
        ops += [('I', (i,)) for i in range(n)] + [('U', (i,)) for i in range(n)]
        ops += [('U', (n - 1, 0)), ('I', (0, n - 1)), ('U', 'labeled:rev'), ('I', 'labeled:first')]
    ops += [('W', (0,)), ('W', (n - 1, 1))]
    if n_partial == 2:
        ops += [('P', 0), ('P', 1)]
    return ops + [('R',), ('C',)]


def configs(tier):
    thorough = tier == 'thorough'
    res = []
    for kind in INDEXES:
        if not thorough and kind in ('reversed', 'negative'):
            continue
        for n_partial in (1, 2, 3):
            if not thorough and n_partial == 3 and kind != 'shifted':
                continue
            res.append({'mode': 'bfs', 'n': 3, 'index': kind, 'n_partial': n_partial, 'alphabet': 'single', 'limit': 250 if not thorough else 20000})
            if not thorough and kind not in ('rotated', 'shifted'):
                continue
            ops = alphabet(3, n_partial, 'full')
            depth = 3 if thorough or (kind == 'rotated' and n_partial == 2) else 2
            step = 5 if depth == 3 else len(ops)
            for first in range(0, len(ops), step):
                res.append({'mode': 'tree', 'n': 3, 'index': kind, 'n_partial': n_partial, 'alphabet': 'full', 'first': [first, first + step], 'depth': depth})
    res.append({'mode': 'tree', 'n': 4, 'index': 'rotated', 'n_partial': 1, 'alphabet': 'full', 'first': [0, 200], 'depth': 2})
    return res


def check_state(s, hist, stats):
    r, m = s.real, s.model

    def fail(key, why):
        stats.violation(key, '{}\nhistory: {}\nindex order: {}\nexpected labels: {}'.format(why, hist, r.index, m.label), {'history': hist})

    row_to_index = {row: i for i, row in m.rows.items()}
    X, y = r.training_set()
    Xp, yp = r.training_set(get_partial=True)
    ls = r.labeled_set

    if len(X) != len(m.label) or len(y) != len(m.label):
        return fail('training-size', 'training set has {} rows and {} labels'.format(len(X), len(y)))
    pts = [row_to_index[tuple(x)] for x in X.tolist()]
    if {i: int(lb) for i, lb in zip(pts, y.tolist())} != m.label:
        return fail('training-labels', 'training set gives labels {} to points {}'.format(y, pts))

    if [tuple(x) for x in Xp.tolist()] != [tuple(x) for x in X.tolist()] or len(yp) != len(X) or \
            {i: tuple(p) for i, p in zip(pts, yp.tolist())} != m.partial:
        return fail('training-partial', 'training set gives partial labels {} to points {}, expected {}'.format(yp.tolist(), pts, m.partial))

    if len(ls) != len(m.label) or dict(zip(ls.index.tolist(), ls.labels.tolist())) != m.label or \
            {i: tuple(p) for i, p in zip(ls.index.tolist(), ls.partial.tolist())} != m.partial:
        return fail('labeled-set', 'labeled set is {} {} {}'.format(ls.index, ls.labels, ls.partial.tolist()))

    if ls.has_positive_and_negative_labels() != (set(m.label.values()) == {0, 1}):
        return fail('has-both', 'has_positive_and_negative_labels = {}'.format(ls.has_positive_and_negative_labels()))

    Xl, yl = r.last_training_set()
    Xlp, ylp = r.last_training_set(get_partial=True)
    last = [row_to_index[tuple(x)] for x in Xl.tolist()]
    if (last, yl.tolist()) != (m.last[0], m.last[1]):
        return fail('last-training-set', 'last training set is {} {}, expected {}'.format(last, yl, m.last))
    if [row_to_index[tuple(x)] for x in Xlp.tolist()] != m.last[0] or ([tuple(p) for p in ylp.tolist()] if m.last[0] else []) != m.last[2]:
        return fail('last-partial', 'partial labels of the last training set are {}, expected {}'.format(ylp.tolist(), m.last))

    for ls, labels, partial, pts in s.labeled_sets:
        if ls.labels.tolist() != labels or ls.partial.tolist() != partial or ls.index.tolist() != pts:
            return fail('user-labels-modified', "user's labeled set became {} {} {}, it was {} {} {}".format(
                ls.index, ls.labels, ls.partial.tolist(), pts, labels, partial))


def run_history(cfg, hist, stats):
    s = System(cfg['n'], cfg['index'], n_partial=cfg['n_partial'])
    stats.current = {'history': hist}
    for k, op in enumerate(hist):
        ok, exc = s.apply(op)
        if ok != (exc is None):
            return None  # decided by P01
    stats.step()
    stats.executions += 1
    check_state(s, hist, stats)
    return s


def run(cfg, stats):
    ops = alphabet(cfg['n'], cfg['n_partial'], cfg['alphabet'])

    if cfg['mode'] == 'tree':
        def rec(hist):
            s = run_history(cfg, hist, stats)
            if s is None:
                return
            stats.state(s.internal())
            stats.outcome('labeled={}'.format(s.real.labeled_size))
            if len(hist) < cfg['depth']:
                for op in ops:
                    rec(hist + [op])

        for op in ops[cfg['first'][0]:cfg['first'][1]]:
            rec([op])
        stats.sample({'history': [ops[cfg['first'][0]], ops[-3]]})
        return

    frontier, visited = [[]], 0
    s = run_history(cfg, [], stats)
    stats.state(s.internal())
    while frontier:
        nxt = []
        for hist in frontier:
            for op in ops:
                s = run_history(cfg, hist + [op], stats)
                if s is not None and stats.state(s.internal(), s.model.canon()):
                    visited += 1
                    nxt.append(hist + [op])
                    stats.outcome('labeled={}'.format(s.real.labeled_size))
            if visited > cfg['limit']:
                stats.sample({'history': hist, 'note': 'search stopped at the state limit of the shard'})
                stats.outcome('bfs-limit')
                return
        if nxt:
            stats.sample({'history': nxt[-1]})
        frontier = nxt
