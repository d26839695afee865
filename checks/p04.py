from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
from aideme.explore.manager import Phase
from aideme.utils import metric_logger
from checks.pool import *
from checks.datasets import Model, INDEXES, make_data
from mc.choice import Chooser, explore

PROPERTY = 'P04'
RULE = 'every sequence of manager operations (updates with any batch and labels, rejected updates, next point requests, convergence tests, ' \
       'callback computations, clears) up to the depth of the shard, for every sampler / skip / criterion of the menu and every random ' \
       'outcome; and long sessions: every labeling of 7 points given one by one, with a clear at any place; phase, iteration count, training calls, proposals and convergence are compared with a reference automaton'
ASSUMPTIONS = ['learner is a recording stub', '3 points (7 for long sessions)', 'all random draws go through numpy.random']

N = 3


def alphabet():
    ops = [('up', (i,), p) for i in range(N) for p in (0, 1)]
    ops += [('up', (1, 0), 0b01), ('up', (0, 2), 0b11), ('up', (2, 0, 1), 0b10), ('up', (1, 1), 0b01)]
    return ops + [('next',), ('cbm',), ('clear',), ('ext-unknown', 0), ('ext-inferred', 1)]


SAMPLERS = [None, ('fixed', [0, 2]), ('random', 1), ('random', 2)]
CRITERIA = [[], [('max', 0)], [('max', 1)], [('iter', 2)]]


def configs(tier):
    res = []
    ops = alphabet()
    for sampler in SAMPLERS:
        for crit in CRITERIA:
            for skip in (1, 2, 3):
                deep = tier == 'thorough' or (skip == 2 and crit in ([], [('max', 1)]))
                if tier == 'quick' and not deep and (skip == 3) != (crit == [('iter', 2)]):
                    continue
                depth = 4 if deep else 3
                step = 3 if depth == 4 else len(ops)
                for first in range(0, len(ops), step):
                    res.append({'sampler': sampler, 'criteria': crit, 'skip': skip, 'depth': depth, 'first': [first, first + step]})
    for sampler in SAMPLERS:
        for crit in ([], [('iter', 4)], [('max', 5)]):
            for skip in (1, 2, 3) if tier == 'thorough' else (2,):
                res.append({'sampler': sampler, 'criteria': crit, 'skip': skip, 'n': 7 if tier == 'thorough' else 6, 'depth': 0})
    return sorted(res, key=lambda c: -c['depth'])


def build(cfg):
    n = cfg.get('n', N)
    index = INDEXES['rotated'](n)
    data = PartitionedDataset(make_data(n), index)
    learner = RecordingLearner('down')
    criteria = [max_iter_reached(c[1]) if c[0] == 'max' else Criterion(c[1]) for c in cfg['criteria']]
    sampler = make_sampler(cfg['sampler'], None, index.tolist())
    kwargs = {} if cfg['skip'] == 1 else {'callback_skip': cfg['skip']}  # 1 is the documented default
    if sampler is not None:
        kwargs['initial_sampler'] = sampler
    manager = ExplorationManager(data, learner, callback=[StateCallback('cb'), StateCallback('cb2')], convergence_criteria=criteria, **kwargs)
    return manager, data, learner, Model(index.tolist(), make_data(n))


def run(cfg, stats):
    if 'n' in cfg:
        return run_long(cfg, stats)
    ops = alphabet()

    def rec(hist):
        ok = [True]

        def execution(ch):
            ok[0] = run_history(cfg, hist, ch, stats) and ok[0]

        explore(execution, stats)
        if ok[0] and len(hist) < cfg['depth']:
            for op in ops:
                rec(hist + [op])

    for op in ops[cfg['first'][0]:cfg['first'][1]]:
        rec([op])
    stats.sample({'config': cfg, 'history': [ops[cfg['first'][0]], ops[10], ops[6]]})


def run_long(cfg, stats):
    """ points labeled one by one, possibly after clearing a shorter session; examined after every update """
    n = cfg['n']
    for labels in range(2 ** n):
        hist = [('up', ((i * 5) % n if n != 5 else i,), labels >> i & 1) for i in range(n)]
        for before in range(n):
            first = hist[:before] + [('clear',)] if before else []
            for k in range(1, n + 1):
                if labels >> k or (before > 1 and k != n):
                    continue
                for last in ([], [('next',)], [('cbm',)], [('clear',)]):
                    def execution(ch):
                        run_history(cfg, first + hist[:k] + last, ch, stats)

                    explore(execution, stats)
    stats.sample({'config': cfg, 'history': hist})


def run_history(cfg, hist, ch, stats):
    """ :return: whether histories extending this one make sense """
    metric_logger.flush()
    manager, data, learner, model = build(cfg)
    iters = 0
    go_on = True

    def fail(key, why):
        stats.violation(key, '{}\nconfig: {}\nhistory: {}\nlearner: {}'.format(why, cfg, hist, learner.log), {'history': hist, 'choices': ch.choices})
        return False

    with controlled(ch, max_perm=5):
        for k, op in enumerate(hist):
            final = k == len(hist) - 1
            n_calls = len(learner.log)
            exc = res = None

            def converged():
                done = len(model.members('labeled')) == cfg.get('n', N)
                for c in cfg['criteria']:
                    done |= iters > c[1] if c[0] == 'max' else iters >= c[1]
                return done

            def exploring():
                return cfg['sampler'] is None or set(model.label.values()) == {0, 1}

            expected_calls = []
            if op[0] == 'up':
                pts = [model.index[i] for i in op[1]]
                labels = [(op[2] >> (j % 2)) & 1 for j in range(len(pts))]
                valid = model.can_move(pts, 'labeled')
                try:
                    manager.update(LabeledSet(labels, index=pts))
                except ValueError as e:
                    exc = e
                if valid != (exc is None):
                    return fail('update-rejected' if valid else 'update-accepted', 'update {} raised {!r}'.format(op, exc))
                if valid:
                    model.move_to_labeled(pts, labels, [[lb] for lb in labels])
                    iters += 1
                    if exploring():
                        expected_calls.append('fit')
                else:
                    go_on = False if final else go_on
            elif op[0] == 'clear':
                manager.clear()
                model.clear()
                iters = 0
                expected_calls.append('clear')
            elif op[0] == 'next':
                if final:
                    res = manager.get_next_to_label()
                else:
                    with controlled(Chooser(), max_perm=5):
                        res = manager.get_next_to_label()
                free = model.members('unknown', 'inferred')
                if final:
                    if not free:
                        if res is not None:
                            return fail('next-when-done', 'a point was proposed, but all are labeled')
                    else:
                        if res is None:
                            return fail('next-none', 'no point was proposed')
                        idx = res.index.tolist()
                        if [tuple(x) for x in res.data.tolist()] != [model.rows[i] for i in idx]:
                            return fail('next-rows', 'proposed rows {} do not belong to {}'.format(res.data, idx))
                        if exploring():
                            best = max(free, key=lambda i: model.rows[i][0])
                            if idx != [best]:
                                return fail('next-exploration', 'proposed {}, expected {}'.format(idx, best))
                        elif cfg['sampler'][0] == 'fixed':
                            if idx != [model.index[i] for i in cfg['sampler'][1]]:
                                return fail('next-initial', 'proposed {} during initial sampling'.format(idx))
                        elif len(set(idx)) != min(cfg['sampler'][1], len(free)) or not set(idx) <= free:
                            return fail('next-initial', 'proposed {} during initial sampling, unlabeled points are {}'.format(idx, free))
            elif op[0] == 'cbm':
                res = manager.get_callback_metrics()
                if final and iters >= 1:
                    expect = {'cb': len(model.label), 'cb2': len(model.label)} if (iters - 1) % cfg['skip'] == 0 or converged() else {}
                    if res != expect:
                        return fail('callbacks', 'iteration {}: callback metrics are {}, expected {}'.format(iters, res, expect))
            else:  # the dataset moved by someone else (e.g. an user changing his mind, or a learner inferring labels)
                target = op[0][4:]
                i = model.index[op[1]]
                if model.can_move([i], target):
                    (data.move_to_unknown if target == 'unknown' else data.move_to_inferred)([i])
                    model.move([i], target)
                elif final:
                    go_on = False

            if not final:
                continue
            stats.step()
            if [c[0] for c in learner.log[n_calls:]] != expected_calls:
                return fail('learner-calls', 'operation {} called {} of the learner, expected {}'.format(op, learner.log[n_calls:], expected_calls))
            if expected_calls == ['fit']:
                X, y = learner.log[-1][1:]
                if len(X) != len(model.label) or {tuple(x): lb for x, lb in zip(X, y)} != {model.rows[i]: lb for i, lb in model.label.items()}:
                    return fail('training-set', 'learner was trained with {} {}, labels are {}'.format(X, y, model.label))
            if manager.iters != iters:
                return fail('iters', 'iters is {}, expected {}'.format(manager.iters, iters))
            phase = Phase.EXPLORE if exploring() else Phase.INITIAL
            if manager.phase != phase or manager.is_exploration_phase != exploring() or manager.is_initial_sampling_phase == exploring():
                return fail('phase', 'phase is {}, expected {}'.format(manager.phase, phase))
            if bool(manager.converged()) != converged():
                return fail('converged', 'converged is {}, expected {}'.format(manager.converged(), converged()))
            if data.labeled_size != len(model.label):
                return fail('labeled', 'labeled points are {}, expected {}'.format(data.labeled.index, model.label))
            stats.state(cfg, model.canon(), iters, data.index.tolist())
            stats.outcome('{} after {}{}'.format(phase.value, op[0], ' (rejected)' if exc else ''))
    return go_on
