import itertools

from aideme.initial_sampling import fixed_sampler, random_sampler, stratified_sampler
from checks.datasets import *
from mc.choice import controlled, explore, subsets

PROPERTY = 'P10'
RULE = 'for every labeling and every partial labeling of <= 4 points, every sample size, and (random sampler) every partition of the points: ' \
       'all outcomes of all random draws are enumerated; every sample is checked, and the set of reachable samples is compared with the ' \
       'set of admissible ones'
ASSUMPTIONS = ['at most 4 points (5 in the thorough tier)', 'all random draws go through numpy.random']


def configs(tier):
    res = []
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for index in ('shifted', 'rotated', 'string'):
            res.append({'mode': 'strat', 'n': n, 'index': index})
            res.append({'mode': 'random', 'n': n, 'index': index})
            if n <= 3:
                res.append({'mode': 'partial', 'n': n, 'index': index})
    return res + [{'mode': 'arguments', 'n': 2, 'index': 'shifted'}]


def run(cfg, stats):
    n = cfg['n']
    index = INDEXES[cfg['index']](n)
    if cfg['mode'] == 'strat':
        for labels in itertools.product((0, 1), repeat=n):
            for dtype in (int, float):
                strat(cfg, stats, index, np.array(labels, dtype=dtype), None, False)
    elif cfg['mode'] == 'partial':
        for partial in itertools.product(itertools.product((0, 1), repeat=2), repeat=n):
            for flag in (True, False):
                strat(cfg, stats, index, np.array([min(r) for r in partial]), np.array(partial), flag)
    elif cfg['mode'] == 'random':
        rand(cfg, stats)
    else:
        ls = LabeledSet([0, 1])
        for f in (lambda: stratified_sampler(ls, pos=0), lambda: stratified_sampler(ls, neg=0), lambda: stratified_sampler(ls, pos=-1),
                  lambda: stratified_sampler(ls, neg=0.5), lambda: random_sampler(0), lambda: random_sampler(-2), lambda: random_sampler(None)):
            try:
                f()
                stats.violation('accepts-bad-size', 'sampler accepts an invalid sample size')
            except ValueError:
                stats.executions += 1
        for idx in ([3], [1, 0], ['a', 'b']):
            s = fixed_sampler(idx)
            stats.check(list(s(None)) == idx and list(s(None)) == idx, 'fixed', 'fixed sampler gives {}'.format(s(None)))
            stats.state('fixed', idx)


def strat(cfg, stats, index, labels, partial, in_all):
    n = cfg['n']
    ls = LabeledSet(labels, partial, index.copy())
    data = PartitionedDataset(make_data(n), index)
    pos_pts = [i for i, lb in zip(index.tolist(), labels) if lb == 1]
    neg_pts = [i for k, i in enumerate(index.tolist()) if (max(partial[k]) == 0 if in_all else labels[k] == 0)]
    for pos in (1, 2, 3):
        for neg in (1, 2):
            case = {'index': index.tolist(), 'labels': labels.tolist(), 'partial': None if partial is None else partial.tolist(), 'pos': pos, 'neg': neg, 'in_all': in_all}
            feasible = pos <= len(pos_pts) and neg <= len(neg_pts)
            reached = set()

            def execution(ch):
                with controlled(ch, max_perm=5):
                    kwargs = {k: v for k, v in (('pos', pos), ('neg', neg)) if v != 1}  # 1 is the default
                    if in_all:
                        kwargs['neg_in_all_subspaces'] = True
                    sampler = stratified_sampler(ls, **kwargs)
                    try:
                        res = sampler(data)
                    except ValueError:
                        if feasible:
                            raise
                        stats.outcome('infeasible')
                        return
                res = [x.item() if hasattr(x, 'item') else x for x in res]
                stats.state(case, ch.choices)
                if not feasible:
                    return stats.violation('infeasible', 'sample {} of an infeasible request: {}'.format(res, case), case)
                if len(res) != pos + neg or len(set(res)) != len(res):
                    return stats.violation('size', 'sample is {}: {}'.format(res, case), case)
                reached.add(frozenset(res))

            explore(execution, stats)
            if feasible:
                expected = {frozenset(a + b) for a in itertools.combinations(pos_pts, pos) for b in itertools.combinations(neg_pts, neg)}
                if reached != expected:
                    stats.violation('samples', 'reachable samples are {}, expected {}: {}'.format(reached, expected, case), case)
                stats.outcome('{} samples'.format(len(expected)))
            if ls.labels.tolist() != labels.tolist() or ls.index.tolist() != index.tolist():
                stats.violation('input-modified', "user's labels were modified: {}".format(case), case)


def rand(cfg, stats):
    n = cfg['n']
    for parts in itertools.product('LIU', repeat=n):
        for order in (1, -1):
            hist = [(p, (k,)) + ((k & 1,) if p == 'L' else ()) for k, p in list(enumerate(parts))[::order] if p != 'U']
            probe = System(n, cfg['index'])
            for op in hist:
                probe.apply(op)
            free = sorted(probe.model.members(UNKNOWN, INFERRED), key=repr)
            for size in range(1, n + 2):
                case = {'history': hist, 'size': size}
                if not free:
                    continue
                reached = set()

                def execution(ch):
                    s = System(n, cfg['index'])
                    for op in hist:
                        s.apply(op)
                    before = s.internal()
                    with controlled(ch, max_perm=5):
                        res = random_sampler(size)(s.real)
                    res = [x.item() if hasattr(x, 'item') else x for x in res]
                    stats.state(case, res)
                    if s.internal() != before:
                        stats.violation('side-effect', 'sampling changed the dataset: {}'.format(case), case)
                    if len(set(res)) != len(res):
                        stats.violation('duplicates', 'random sample {} has duplicates: {}'.format(res, case), case)
                    reached.add(frozenset(res))
                    # the sample can be labeled right away
                    s.real.move_to_labeled(LabeledSet([0] * len(res), index=random_view(s, res)))

                explore(execution, stats)
                k = min(size, len(free))
                expected = {frozenset(c) for c in itertools.combinations(free, k)}
                if reached != expected:
                    stats.violation('random-samples', 'reachable samples are {}, expected {}: {}'.format(reached, expected, case), case)
                stats.outcome('{} samples'.format(len(expected)))


def random_view(s, res):
    return res
