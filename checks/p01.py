from checks.datasets import *

PROPERTY = 'P01'
RULE = 'every sequence of partition operations (alphabet: batches of <= 2 points in every order, views of partitions, invalid batches) ' \
       'up to the depth of the shard without merging, then breadth-first search over canonical states of the real object to a fixpoint; ' \
       'in every state the three partitions, sizes and lookups are compared with a dictionary model'
ASSUMPTIONS = ['index values are hashable and distinct', 'at most 4 points', 'single thread']


def alphabet(n, kind):
    ops = []
    if kind == 'full':
        bs = [b for b in batches(n, 2) if b]
        ops += [('L', b, 0b01) for b in bs] + [('I', b) for b in bs] + [('U', b) for b in bs]
        ops += [(m, (0, 0)) + ((1,) if m == 'L' else ()) for m in 'LIU']
        ops += [('L', (0, n), 1), ('I', (0, n)), ('U', (n - 1, n))]
        ops += [('L', (), 1), ('I', ()), ('U', ())]
        ops += [('W', (0,)), ('W', (2, 1))]
    else:
        ops += [('L', (i,), 1) for i in range(n)] + [('I', (i,)) for i in range(n)] + [('U', (i,)) for i in range(n)]
        ops += [('I', (0, 1), 'gen'), ('U', (n - 1, 0), 'tuple'), ('L', tuple(range(n))[::-1], 2), ('U', tuple(range(n)))]
        views = ['unknown:rev', 'unknown:last2rev', 'unknown:all', 'unlabeled:rev', 'unlabeled:tail', 'inferred:all', 'inferred:rev', 'labeled:all',
                 'labeled:rev', 'labeled:first']
        for v in views:
            ops += [('L', v, 1), ('I', v), ('U', v)]
    return ops + [('R',), ('C',)]


def configs(tier):
    thorough = tier == 'thorough'
    res = []
    for kind in INDEXES:
        for copy in (True, False):
            if not thorough and not copy and kind != 'rotated':
                continue
            for alpha in ('full', 'views'):
                res.append({'mode': 'bfs', 'n': 3, 'index': kind, 'copy': copy, 'alphabet': alpha})
                if thorough:
                    res.append({'mode': 'bfs', 'n': 4, 'index': kind, 'copy': copy, 'alphabet': alpha})
                depth = 3 if thorough or (kind == 'rotated' and copy and alpha == 'full') else 2
                if not thorough and depth == 2 and kind not in ('rotated', 'shifted', 'string'):
                    continue
                ops = alphabet(3, alpha)
                step = 6 if depth == 3 else len(ops)
                for first in range(0, len(ops), step):
                    res.append({'mode': 'tree', 'n': 3, 'index': kind, 'copy': copy, 'alphabet': alpha, 'first': [first, first + step], 'depth': depth})
    res += [{'mode': 'bfs', 'n': n, 'index': 'shifted', 'copy': True, 'alphabet': 'single'} for n in ([1, 2, 4] if not thorough else [1, 2, 4, 5])]
    return sorted(res, key=lambda c: -c['n'])


def check_state(s, hist, stats):
    r, m = s.real, s.model
    n = len(m.index)

    def fail(key, why):
        stats.violation(key, '{}\nhistory: {}\nindex: {}\nmodel: {}'.format(why, hist, r.index, m.part), {'history': hist})

    parts = {LABELED: r.labeled, INFERRED: r.inferred, UNKNOWN: r.unknown}
    for name, part in parts.items():
        got = part.index.tolist()
        if sorted(map(repr, got)) != sorted(map(repr, m.members(name))):
            return fail('members-' + name, '{} partition is {}, expected {}'.format(name, got, m.members(name)))
        if len(part) != len(got) or [tuple(x) for x in part.data.tolist()] != [m.rows[i] for i in got]:
            return fail('rows-' + name, 'rows of the {} partition do not belong to its indexes {}:\n{}'.format(name, got, part.data))

    unlabeled = r.unlabeled
    if sorted(map(repr, unlabeled.index.tolist())) != sorted(map(repr, m.members(INFERRED, UNKNOWN))) or \
            [tuple(x) for x in unlabeled.data.tolist()] != [m.rows[i] for i in unlabeled.index.tolist()]:
        return fail('members-unlabeled', 'unlabeled points are {}'.format(unlabeled.index))

    sizes = (len(r), r.labeled_size, r.inferred_size, r.unknown_size, r.unlabeled_size)
    expected = (n, len(m.members(LABELED)), len(m.members(INFERRED)), len(m.members(UNKNOWN)), len(m.members(INFERRED, UNKNOWN)))
    if sizes != expected:
        return fail('sizes', 'sizes {} != {}'.format(sizes, expected))

    if [tuple(x) for x in r.data.tolist()] != [m.rows[i] for i in r.index.tolist()] or sorted(map(repr, r.index.tolist())) != sorted(map(repr, m.index)):
        return fail('rows-all', 'data and index of the dataset do not match')

    for idx in ([i for i in m.index], [i for i in m.index][::-1], m.index[:1], []):
        sel = r.from_index(idx)
        if sel.index.tolist() != list(idx) or [tuple(x) for x in sel.data.tolist()] != [m.rows[i] for i in idx]:
            return fail('from-index', 'from_index({}) gives {} {}'.format(idx, sel.index, sel.data))


def run_history(cfg, hist, stats, check_all=True):
    s = System(cfg['n'], cfg['index'], cfg['copy'])
    for k, op in enumerate(hist):
        before = s.internal() if k == len(hist) - 1 else None
        ok, exc = s.apply(op)
        if k < len(hist) - 1:
            continue
        stats.step()
        if ok != (exc is None):
            stats.violation('raises' if ok else 'accepts-invalid', 'operation {} of {} should {}, but {!r}'.format(
                op, hist, 'succeed' if ok else 'be rejected', exc), {'history': hist})
            return None
        if exc is not None and s.internal() != before:
            stats.violation('not-atomic', 'rejected operation {} changed the dataset\nhistory: {}\nbefore: {}\nafter: {}'.format(
                op, hist, before, s.internal()), {'history': hist})
            return None
        if op[0] == 'C' and s.real.index.tolist() != sorted(s.model.index):  # documented by clear()
            stats.violation('clear-order', 'clear does not sort data by index: {}'.format(s.real.index), {'history': hist})
    stats.executions += 1
    stats.current = {'history': hist}
    check_state(s, hist, stats)
    return s


def get_ops(cfg):
    n = cfg['n']
    if cfg['alphabet'] == 'single':
        ops = [(m, (i,)) + ((1,) if m == 'L' else ()) for m in 'LIU' for i in range(n)]
        return ops + [('L', tuple(range(n)), 1), ('U', tuple(range(n))), ('I', tuple(range(n))[::-1]), ('R',), ('C',)]
    return alphabet(n, cfg['alphabet'])


def run(cfg, stats):
    ops = get_ops(cfg)

    if cfg['mode'] == 'tree':
        def rec(hist):
            s = run_history(cfg, hist, stats)
            if s is None:
                return
            stats.state(s.internal())
            stats.outcome('labeled={} inferred={}'.format(s.real.labeled_size, s.real.inferred_size))
            if len(hist) < cfg['depth']:
                for op in ops:
                    rec(hist + [op])

        for op in ops[cfg['first'][0]:cfg['first'][1]]:
            rec([op])
        stats.sample({'history': [ops[cfg['first'][0]], ops[-3]]})
        return

    # breadth-first search over states of the real object: order of its rows, its partitions, and order of its labels
    def key(s):
        r = s.real
        return r.index.tolist(), r.labeled_size, r.inferred_size, r.labeled_set.index.tolist()

    frontier = [[]]
    stats.state(key(run_history(cfg, [], stats)))
    while frontier:
        nxt = []
        for hist in frontier:
            for op in ops:
                s = run_history(cfg, hist + [op], stats)
                if s is not None and stats.state(key(s)):
                    nxt.append(hist + [op])
                    stats.outcome('labeled={} inferred={}'.format(s.real.labeled_size, s.real.inferred_size))
        if nxt:
            stats.sample({'history': nxt[-1]})
        frontier = nxt
