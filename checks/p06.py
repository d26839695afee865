import itertools

import numpy as np

from aideme import LabeledSet, PoolBasedExploration
from aideme.active_learning import RandomSampler
from aideme.active_learning.dsm import DualSpaceModel
from aideme.initial_sampling import random_sampler, stratified_sampler
from aideme.utils.convergence import max_iter_reached, metric_reached_threshold
from aideme.utils.noise import random_noise_injector
from aideme.utils import metric_logger
from checks.pool import RecordingLearner
from mc.choice import explore

PROPERTY = 'P06'
RULE = 'for every setting of the menu (learner, noise, index, copy): reference metrics of one fresh run per seed; then every sequence of up ' \
       'to 3 sessions on the same exploration and learner objects, where each run of each session is consumed to every possible length ' \
       'before it is abandoned, also when all runs of a session are created first and consumed in any order; every iteration obtained is compared with the reference of its seed'
ASSUMPTIONS = ['runs are consumed one after the other', 'timings are not compared', 'single thread']

TIMES = ('iter_time', 'fit_time', 'get_next_time', 'callback_time')


def make_learner(kind):
    if kind == 'stub':
        return RecordingLearner('ties')
    if kind == 'parity':
        return RecordingLearner('parity')
    if kind == 'random':
        return RandomSampler(RecordingLearner())
    if kind == 'margin':
        from aideme.active_learning import SimpleMargin
        return SimpleMargin(C=10, kernel='linear')
    if kind == 'dsm':
        return DualSpaceModel(RecordingLearner('ties'), mode='persist')
    raise ValueError(kind)


DATA = np.array([[0., 0.], [1., 0.5], [2., 3.], [3., 1.], [4., 2.5]])
LABELS = [0, 1, 1, 0, 1]


def configs(tier):
    res = []
    for learner in ('stub', 'parity', 'random', 'margin', 'dsm'):
        for sampler in ('strat', 'random'):
            for noise in (None, 0.5):
                if learner in ('dsm', 'margin') and noise:
                    continue
                for copy in (True, False):
                    res.append({'learner': learner, 'sampler': sampler, 'noise': noise, 'copy': copy, 'n': 4 if tier == 'quick' else 5,
                                'sessions': 2 if tier == 'quick' or learner != 'stub' else 3})
    return res


def clean(metrics):
    return {k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in metrics.items() if k not in TIMES}


def make_exploration(cfg):
    n = cfg['n']
    ls = LabeledSet(np.array(LABELS[:n]), index=np.array([30, 10, 40, 20, 50][:n]))
    sampler = stratified_sampler(ls, 1, 1) if cfg['sampler'] == 'strat' else random_sampler(1)
    noise = None if cfg['noise'] is None else random_noise_injector(cfg['noise'])

    def cb(data, learner):
        return {'pred': np.asarray(learner.predict(data.data)).tolist(), 'index': data.index.tolist()} if learner_is_fitted(data) else None

    def learner_is_fitted(data):
        return data.labeled_set.has_positive_and_negative_labels()

    expl = PoolBasedExploration(initial_sampler=sampler, callback=[cb, lambda d, l: {'size': d.labeled_size}], callback_skip=1,
                                convergence_criteria=[max_iter_reached(3), metric_reached_threshold('size', cfg['n'] - 1 if cfg['noise'] is None else 99)],
                                noise_injector=noise)
    return expl, ls


def run(cfg, stats):
    n = cfg['n']
    seeds = [0, 7]
    reference = {}
    for seed in seeds:
        expl, ls = make_exploration(cfg)
        reference[seed] = [clean(m) for m in list(expl.run(DATA[:n].copy(), ls, make_learner(cfg['learner']), seeds=seed, copy=cfg['copy'], return_generator=False)[0])]
        if not reference[seed]:
            stats.violation('empty', 'run of seed {} has no iteration'.format(seed))
            return
    stats.outcome('lengths {}'.format([len(reference[s]) for s in seeds]))

    def execution(ch):
        expl, ls = make_exploration(cfg)
        learner = make_learner(cfg['learner'])
        data = DATA[:n].copy()
        np.random.seed(99)  # state left by some other work
        plan = []
        for session in range(cfg['sessions']):
            kind = ch.choose(4)
            if kind == 0:  # two runs in a generator, both possibly abandoned
                order = ch.pick([seeds, seeds[::-1]] if session == 0 else [seeds[::-1]])
                runs = expl.run(data, ls, learner, repeat=2, seeds=order, copy=cfg['copy'])
                for seed, gen in zip(order, runs):
                    length = ch.choose(len(reference[seed]) + 1)
                    plan.append((seed, length))
                    got = [clean(m) for m in itertools.islice(gen, length)]
                    if length == len(reference[seed]):
                        got += [clean(m) for m in gen]
                    else:
                        gen.close()
                    compare(got, reference[seed][:length], plan, 'generator')
            elif kind == 1:  # a list of complete runs
                order = [seeds[session % 2], seeds[0]]
                plan.append(('list', order))
                for seed, got in zip(order, expl.run(data, ls, learner, repeat=2, seeds=order, copy=cfg['copy'], return_generator=False)):
                    compare([clean(m) for m in got], reference[seed], plan, 'list')
            elif kind == 3:  # all runs are created before any of them is consumed, in any order
                runs = list(expl.run(data, ls, learner, repeat=2, seeds=seeds, copy=cfg['copy']))
                for k in ch.pick([(0, 1), (1, 0)]):
                    length = len(reference[seeds[k]]) - (ch.choose(2) if session == 0 else 0)
                    plan.append(('created', seeds[k], length))
                    compare([clean(m) for m in itertools.islice(runs[k], length)], reference[seeds[k]][:length], plan, 'created-first')
                    keep.append(runs[k])
            else:  # a single seed, left unfinished without being closed
                seed = seeds[session % 2]
                gen = next(iter(expl.run(data, ls, learner, seeds=seed, copy=cfg['copy'])))
                length = ch.choose(len(reference[seed]) + 1)
                plan.append(('single', seed, length))
                compare([clean(m) for m in itertools.islice(gen, length)], reference[seed][:length], plan, 'single')
                keep.append(gen)
            stats.step()
            if not cfg['copy']:  # the order of the user's rows was changed by the run: this is only allowed for his own array
                data = DATA[:n].copy()
        stats.state(cfg, plan)

    def compare(got, expected, plan, kind):
        if got != expected:
            stats.violation('not-reproduced:' + kind, 'metrics differ from a fresh run with the same seed\nplan: {}\nconfig: {}\ngot: {}\nexpected: {}'.format(
                plan, cfg, got, expected), {'plan': plan})

    keep = []
    explore(execution, stats)

    # wrong number of seeds
    expl, ls = make_exploration(cfg)
    for repeat, s in ((2, [1]), (1, [1, 2]), (3, [1, 2]), (2, 5)):
        try:
            expl.run(DATA[:n].copy(), ls, make_learner(cfg['learner']), repeat=repeat, seeds=s)
            stats.violation('seeds', 'repeat={} with seeds={} is accepted'.format(repeat, s))
        except ValueError:
            pass
    stats.sample({'reference lengths': {s: len(r) for s, r in reference.items()}, 'labeled': [m['labeled_indexes'] for m in reference[0]]})
