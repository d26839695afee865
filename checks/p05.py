from checks.pool import *
from mc.choice import explore

PROPERTY = 'P05'
RULE = 'for every labeling of <= 4 points and every combination of initial sampler, ranking, subsampling, callback skip, noise injector and convergence ' \
       'criteria of the menu: every outcome of every random draw of the whole exploration is enumerated, and the complete sequence of ' \
       'reported metrics and of calls to the learner is compared with a reference interpreter of the exploration loop'
ASSUMPTIONS = ['learner is a recording stub', 'at most 4 points', 'all random draws go through numpy.random']

SAMPLERS = [None, ('fixed', [0]), ('fixed', [1, 0]), ('fixed', [0, 1, 2, 3]), ('random', 1), ('random', 2), ('strat', 1, 1)]
CRITERIA = [[], [('max', 0)], [('max', 1)], [('max', 2)], [('iter', 1)], [('iter', 3), ('max', 1)], [('thr', 2)], [('thr', 3), ('iter', 9)], [('thr', 1)], [('phase',)], [('positives', 1)]]


def configs(tier):
    res = []
    sizes = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for n in sizes:
        for rank in ('ties', 'down', 'inf') if n > 1 else ('ties',):
            for sampler in SAMPLERS:
                for index in ('default', 'shifted', 'string') if tier == 'thorough' else ('shifted',):
                    res.append({'n': n, 'rank': rank, 'sampler': sampler, 'index': index})
    if tier == 'quick':
        res += [{'n': 4, 'rank': rank, 'sampler': s, 'index': 'rotated'} for rank in ('down', 'parity') for s in SAMPLERS]
    return sorted(res, key=lambda c: -c['n'])


def expand(cfg):
    n = cfg['n']
    for labels in range(2 ** n):
        s = cfg['sampler']
        if s and s[0] == 'strat' and (bin(labels).count('1') < s[1] or n - bin(labels).count('1') < s[2]):
            continue  # documented requirement of the sampler
        if s and s[0] == 'fixed':
            if max(s[1]) >= n:
                continue
            ys = {(labels >> i) & 1 for i in s[1]}  # labels of initial sampling are never noisy
            if len(ys) < 2 and len(s[1]) < n:
                continue  # a fixed sampler cannot be asked a second time, except when nothing is left
        base = dict(cfg, labels=labels, partial=(labels + n) % 2 == 0)
        for k, crit in enumerate(CRITERIA):
            for skip in (None, 1, 2, 3) if k in (0, 3) else (1, 2, 3):
                yield dict(base, criteria=crit, skip=skip, subsampling=None, noise=None)
            if k in (0, 3):
                for noise in ('all', 'odd', 'first', 'positive'):
                    yield dict(base, criteria=crit, skip=1, subsampling=None, noise=noise)
                    if n > 1:
                        yield dict(base, criteria=crit, skip=1, subsampling=None, noise=noise, partial=not base['partial'])
            if k in (0, 2, 7):
                yield dict(base, criteria=crit, skip=1, subsampling=2, noise=None)
                yield dict(base, criteria=crit, skip=2, subsampling=1, noise=None)


def check(rec, cfg, stats):
    """ reference interpreter, driven by the points which were really chosen """
    metrics = rec.runs[0]
    truth = {i: (lb, None if rec.partial is None else rec.partial[k]) for k, (i, lb) in enumerate(zip(rec.index0, rec.labels))}
    rows = {i: tuple(x) for i, x in zip(rec.index0, rec.data0.tolist())}

    def fail(key, why):
        stats.violation(key, '{}\nconfig: {}\nmetrics: {}\ncalls: {}'.format(why, cfg, metrics, rec.learner.log), {'config': cfg, 'choices': stats.current})
        return False

    calls = list(rec.learner.log)
    if not calls or calls[0] != ('clear',):
        return fail('no-clear', 'learner was not cleared before the run')
    calls = calls[1:]

    known = {}  # label of every labeled point, as seen by the learner
    noise_calls = list(rec.noise.calls) if rec.noise else []
    skip = cfg['skip'] or 1
    for it, m in enumerate(metrics, start=1):
        both = set(known.values()) == {0, 1}
        phase = 'exploration' if rec.sampler_spec is None or both else 'initial_sampling'
        if m.get('phase') != phase:
            return fail('phase', 'iteration {}: phase is {}, expected {}'.format(it, m.get('phase'), phase))

        idx = m.get('labeled_indexes')
        if not idx or len(set(idx)) != len(idx) or any(i not in truth for i in idx):
            return fail('points', 'iteration {} labels {}'.format(it, idx))
        if any(i in known for i in idx):
            return fail('labeled-twice', 'iteration {} labels {} again'.format(it, idx))
        if m['labels'] != [truth[i][0] for i in idx]:
            return fail('labels', 'iteration {}: reported labels {} of points {}, expected {}'.format(it, m['labels'], idx, [truth[i][0] for i in idx]))
        partial = [[truth[i][0]] if truth[i][1] is None else list(truth[i][1]) for i in idx]
        if m['partial_labels'] != partial:
            return fail('partial-labels', 'iteration {}: reported partial labels {} of points {}, expected {}'.format(it, m['partial_labels'], idx, partial))

        if phase == 'initial_sampling':
            s = rec.sampler_spec
            want = None
            if s[0] == 'fixed':
                want = [rec.index0[k] for k in s[1]]
                if idx != want:
                    return fail('sampler', 'initial sample is {}, expected {}'.format(idx, want))
            elif s[0] == 'random' and len(idx) != min(s[1], rec.n - len(known)):
                return fail('sampler', 'initial sample {} has wrong size'.format(idx))
            elif s[0] == 'strat' and sorted(m['labels']) != [0] * s[2] + [1] * s[1]:
                return fail('sampler', 'stratified sample {} has labels {}'.format(idx, m['labels']))
        else:
            if len(idx) != 1:
                return fail('points', 'iteration {} labels {}'.format(it, idx))

        labels = m['labels']
        if rec.noise and phase == 'exploration':
            # user answers go through the injector once; it knows how many iterations went before this one
            if not noise_calls or noise_calls.pop(0) != (it - 1, idx, labels, partial):
                return fail('noise-calls', 'iteration {}: noise injector was given {}'.format(it, rec.noise.calls))
            labels, noisy_partial = rec.noise.answer(it - 1, idx, labels, partial)
            if m.get('noisy_labels') != labels or m.get('noisy_partial_labels') != noisy_partial:
                return fail('noisy-labels', 'iteration {}: noisy labels are {} {}, expected {} {}'.format(it, m.get('noisy_labels'), m.get('noisy_partial_labels'), labels, noisy_partial))
        elif 'noisy_labels' in m or 'noisy_partial_labels' in m:
            return fail('noisy-labels', 'iteration {} reports noisy labels, although no noise was injected'.format(it))
        known.update(dict(zip(idx, labels)))

        # learner is trained exactly once per iteration as soon as exploration phase begins, over all labeled points
        if rec.sampler_spec is None or set(known.values()) == {0, 1}:
            if not calls or calls[0][0] != 'fit':
                return fail('not-fitted', 'learner was not trained at iteration {}'.format(it))
            X, y = calls.pop(0)[1:]
            got = {tuple(x): lb for x, lb in zip(X, y)}
            if len(X) != len(known) or got != {rows[i]: lb for i, lb in known.items()}:
                return fail('training-set', 'learner was trained with {} {}, labels are {}'.format(X, y, known))

        # convergence: at the end of this iteration
        done = len(known) == rec.n
        for c in cfg['criteria']:
            done |= (c[0] == 'phase' and phase == 'exploration') or (c[0] == 'positives' and sum(m['labels']) >= c[1])  # reported in this iteration
            done |= (c[0] == 'max' and it > c[1]) or (c[0] == 'iter' and it >= c[1])
        expect_cb = (it - 1) % skip == 0 or done
        if expect_cb != ('cb' in m):
            return fail('callback-skip', 'iteration {}: callback metrics {} reported'.format(it, 'not' if expect_cb else 'wrongly'))
        if expect_cb:
            if m['cb'] != len(known):
                return fail('callback-value', 'iteration {}: callback gives {}, expected {}'.format(it, m['cb'], len(known)))
            for c in cfg['criteria']:
                done |= c[0] == 'thr' and m['cb'] >= c[1]
        for key in ('iter_time', 'fit_time', 'get_next_time'):
            if not (isinstance(m.get(key), float) and m[key] >= 0):
                return fail('times', 'iteration {}: {} is {}'.format(it, key, m.get(key)))

        if done != (it == len(metrics)):
            return fail('stops-late' if done else 'stops-early', 'exploration should {} after iteration {}, but {} iterations were run'.format(
                'stop' if done else 'go on', it, len(metrics)))

    if not metrics and rec.n > 0:
        return fail('no-iteration', 'exploration stopped before its first iteration')
    if noise_calls:
        return fail('noise-calls', 'unexpected calls to the noise injector: {}'.format(noise_calls))
    if calls:
        return fail('extra-calls', 'unexpected calls to the learner: {}'.format(calls))
    return True


def run(cfg, stats):
    for full in expand(cfg):
        def execution(ch):
            rec = run_pool(full, ch)
            stats.state(full, [(m.get('labeled_indexes'), m.get('phase')) for m in rec.runs[0]])
            stats.outcome('{} iterations'.format(len(rec.runs[0])))
            stats.sample({'config': full, 'labeled': [m.get('labeled_indexes') for m in rec.runs[0]]})
            check(rec, full, stats)

        explore(execution, stats)
