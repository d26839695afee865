import itertools

import numpy as np

from aideme.explore import LabeledSet
from aideme.utils.noise import random_noise_injector
from mc.choice import controlled, explore

PROPERTY = 'P09'
RULE = 'for every labeled set of <= 3 points with 1 to 3 partial labels, every noise level, iteration and skip of the menu: all outcomes of ' \
       'all random draws are enumerated; every noisy labeled set is checked, and the set of reachable ones is compared with the expected set'
ASSUMPTIONS = ['final labels are the conjunction of partial labels, or partial labels are absent', 'all random draws go through numpy.random']


def configs(tier):
    res = []
    for n in (1, 2, 3):
        for p in (1, 2, 3) if tier == 'thorough' or n < 3 else (1, 2):
            for noise in (0, 0.0, 0.25, 0.75, 1, 1.0):
                res.append({'n': n, 'p': p, 'noise': noise})
    return res + [{'n': 0, 'p': 1, 'noise': 0.5}]


def run(cfg, stats):
    n, p, noise = cfg['n'], cfg['p'], cfg['noise']
    if n == 0:
        for bad in (-0.1, 1.1, 2, -1):
            try:
                random_noise_injector(bad)
                stats.violation('accepts-bad-noise', 'noise {} is accepted'.format(bad))
            except ValueError:
                stats.executions += 1
        for bad in (-1, 0.5, None):
            try:
                random_noise_injector(0.1, bad)
                stats.violation('accepts-bad-skip', 'skip_initial {} is accepted'.format(bad))
            except ValueError:
                stats.executions += 1
        stats.state('bad arguments')
        return

    rows = list(itertools.product((0, 1), repeat=p))
    for partial in itertools.product(rows, repeat=n):
        labels = [min(r) for r in partial]
        for skip, iteration in ((0, 1), (0, 0), (2, 2), (2, 3), (1, 5)):
            case = {'partial': partial, 'labels': labels, 'skip': skip, 'iteration': iteration, 'noise': noise}
            reached = set()

            def execution(ch):
                index = np.array([7, 3, 5][:n])
                ls = LabeledSet(np.array(labels), None if p == 1 else np.array(partial), index)
                with controlled(ch, unit=(0.0, 0.5, 0.999)):
                    res = random_noise_injector(noise, skip)(iteration, ls)
                if ls.labels.tolist() != labels or ls.partial.tolist() != [list(r) for r in partial] or ls.index.tolist() != [7, 3, 5][:n]:
                    stats.violation('input-modified', "user's labels were modified: {}".format(case), case)
                if res.index.tolist() != [7, 3, 5][:n] or res.labels.shape != (n,) or res.partial.shape != (n, p):
                    stats.violation('shape', 'noisy set is {} {} {}: {}'.format(res.index, res.labels, res.partial, case), case)
                got = tuple((int(lb), tuple(int(x) for x in q)) for lb, q in zip(res.labels.tolist(), res.partial.tolist()))
                stats.state(case, got)
                reached.add(got)

            explore(execution, stats)

            # what may happen to every single point
            options = []
            for lb, q in zip(labels, partial):
                same, flipped = (lb, q), []
                if lb == 0:
                    flipped = [(1, (1,) * p)]
                else:
                    flipped = [(0, tuple(0 if j == k else q[j] for j in range(p))) for k in range(p)]
                if iteration <= skip or noise == 0:
                    options.append([same])
                elif noise == 1:
                    options.append(flipped)
                else:
                    options.append([same] + flipped)
            expected = set(itertools.product(*options))
            if reached != expected:
                stats.violation('outcomes', 'noisy labels can be {}, expected {}: {}'.format(sorted(reached), sorted(expected), case), case)
            stats.outcome('{} outcomes'.format(len(expected)))
            stats.sample({'case': case, 'noisy': sorted(reached)[:4]})
