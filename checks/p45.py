import contextlib
import itertools

import numpy as np

from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm
from checks.cones import solid
from mc.choice import controlled

PROPERTY = 'P45'
RULE = 'every linearly separable labeled set over a grid of 1 point, and a fixed fraction of those of 2 and 3 points (after trainings with the points before, for the settings of the shard): all ' \
       'sequences of 3 draws (direction, position on the chord) of a menu; from the runs with a single step (warmup 1) the linear map of the ' \
       'directions is found by the theorem on projective frames, then every state of every run is compared with a reference chain driven by the same ' \
       'draws, for all settings of chains, warmup, thinning and number of samples which the draws suffice for (quick: every sequence with 2 of them)'
ASSUMPTIONS = ['all random draws go through numpy.random: one direction and one position of the chord per step', 'directions come from a menu of generic ones, ' \
               'positions from 0.25, 0.75', 'the ellipsoid which the shape of directions is compared with is the one of the rounding algorithm, decided by P24']

GRIDS = {
    'plane': [(1, 0, 0), (1, 2, 0), (1, 0, 2), (1, 1, 1), (1, 2, 3)],
    'flat': [(2, 0), (0, 1), (1, 1), (-1, 2), (-3, 1)],
    'line': [(1, -1), (1, 0), (1, 2), (1, 5)],
}
ROUNDINGS = [None, {}, {'strategy': 'default'}, {'z_cut': False}, {'max_iter': 1}, {'sphere_cuts': True}]


def configs(tier):
    big = tier == 'thorough'
    res = []
    for grid in GRIDS:
        for r in range(len(ROUNDINGS)):
            for rounding_cache, cache_samples in itertools.product((False, True), repeat=2):
                if rounding_cache and r == 0:
                    continue
                if not big and r > 1 and (rounding_cache + cache_samples + r) % 2:
                    continue
                for k in range(8 if big else 2):
                    res.append({'grid': grid, 'rounding': r, 'rounding_cache': rounding_cache, 'cache_samples': cache_samples, 'part': [k, 8 if big else 2], 'big': big})
    return res


class Tape:
    """ random draws of a run: in step i, direction and position on the chord are those of entry i """
    fractions = (0.25, 0.75)

    def __init__(self, dim, draws):
        self.dim, self.draws = dim, draws
        self.rows = self.positions = 0

    def directions(self, n):
        k = n // self.dim
        res = [self.draws[min(self.rows + i, len(self.draws) - 1)][0] for i in range(k)]
        self.rows += k
        return [np.concatenate(res)]

    def pick(self, menu):
        if menu is self.fractions:
            self.positions += 1
            return self.draws[min(self.positions, len(self.draws)) - 1][1]
        return menu[0]

    def choose(self, n):
        return 0

    @contextlib.contextmanager
    def playing(self):
        with controlled(self, directions=self.directions, fractions=self.fractions, unit=self.fractions, max_perm=0):
            yield


FRAME = np.array([[1.1, 0.23, -0.31], [-0.19, 0.9, 0.37], [0.29, -0.41, 1.2]])


def menu(dim):
    base = np.array([[1.0, -0.37, 0.61], [0.41, 1.3, -0.83], [-0.7, 0.53, 1.1]])[:, :dim]
    return [(base[0], 0.25), (base[1], 0.75), (base[2], 0.25)]


def step(A, x, u, f):
    """ the point at fraction f of the chord of {A w <= 0, |w| <= 1} through x along u """
    lo, hi = -np.inf, np.inf
    for a in A:
        num, den = -float(a @ x), float(a @ u)
        if den > 0:
            hi = min(hi, num / den)
        elif den < 0:
            lo = max(lo, num / den)
    a, b, c = float(u @ u), float(x @ u), float(x @ x) - 1
    d = np.sqrt(max(b * b - a * c, 0))
    lo, hi = max(lo, (-b - d) / a), min(hi, (-b + d) / a)
    return x + (lo + f * (hi - lo)) * u


def reference(A, start, moves, single, w, t, n):
    """ samples which a chain with these moves (direction, position) gives """
    states = [start]
    if single:
        for u, f in moves[:w + t * (n - 1)]:
            states.append(step(A, states[-1], u, f))
        return [states[w + t * i] for i in range(n)]
    want = []
    for i in range(n):
        p = start
        for u, f in moves[i * w:(i + 1) * w]:
            p = step(A, p, u, f)
        want.append(p)
    return want


def run(cfg, stats):
    pts = GRIDS[cfg['grid']]
    count = 0
    for size in (1, 2, 3):
        for chosen in itertools.permutations(pts, size):
            if size == 3 and not cfg['big'] and chosen[0] > chosen[1]:
                continue
            for labels in itertools.product((0., 1.), repeat=size):
                A = np.array(chosen) * np.where(np.array(labels) == 1, -1., 1.).reshape(-1, 1)
                if not solid([tuple(int(v) for v in a) for a in A]):
                    continue
                count += 1
                if count % cfg['part'][1] != cfg['part'][0] or count // cfg['part'][1] % ((1, 3, 10) if cfg['big'] else (1, 4, 12))[size - 1]:
                    continue
                for stages in sorted({(size,), tuple(range(1, size + 1))}):
                    history(cfg, np.array(chosen, dtype=float), np.array(labels), A, stages, stats)


def history(cfg, X, y, A, stages, stats):
    rounding = ROUNDINGS[cfg['rounding']]
    dim = X.shape[1]
    draws = menu(dim)
    case = {'points': X.tolist(), 'labels': y.tolist(), 'stages': stages, 'rounding': rounding, 'rounding_cache': cfg['rounding_cache'], 'cache_samples': cfg['cache_samples']}
    stats.current = case
    before = {}

    def trained(tape, single=True, warmup=1, thin=1, n=1, fresh=False):
        """ samples after the last training """
        stats.step()
        s = HitAndRunSampler(single_chain=single, warmup=warmup, thin=thin, cache_samples=cfg['cache_samples'], rounding=rounding is not None,
                             rounding_cache=cfg['rounding_cache'], rounding_options=rounding)
        earlier = () if fresh else stages[:-1]
        for k in earlier:  # always 3 samples
            m = n if k == stages[-1] else 3
            with Tape(dim, draws).playing():
                before['samples'] = s.sample(X[:k].copy(), y[:k].copy(), m).copy()
        t = Tape(dim, tape)
        with t.playing():
            res = s.sample(X.copy(), y.copy(), n)
        if res.shape != (n, dim) or not np.all(np.isfinite(res)):
            stats.violation('shape', 'samples are {}: {}'.format(res.tolist(), case), case)
        return res

    def chord(u_draw):
        a, b = trained([(u_draw, 0.25)])[0], trained([(u_draw, 0.75)])[0]
        u = b - a
        if not np.linalg.norm(u) > 1e-9:
            stats.violation('position', 'different positions on the chord give the same sample: {}'.format(case), case)
            return None
        # both lie at their fraction of the chord
        for f, p in ((0.25, a), (0.75, b)):
            if np.linalg.norm(step(A, (a + b) / 2, u, f) - p) > 1e-7:
                stats.violation('chord', 'sample {} does not lie at {} of its chord along {}: {}'.format(p.tolist(), f, u.tolist(), case), case)
        return u / np.linalg.norm(u)

    # the linear map of directions
    G = FRAME[:dim, :dim]
    frame = [chord(e) for e in G.T] + [chord(G.sum(axis=1))]
    if any(u is None for u in frame):
        return
    U = np.array(frame[:-1]).T
    if abs(np.linalg.det(U)) < 1e-9:
        return stats.violation('directions', 'directions do not span the space: {}'.format(case), case)
    c = np.linalg.solve(U, frame[-1])
    M = (U * c) @ np.linalg.inv(G)
    if rounding is None:
        shape = np.eye(dim)
    else:
        elp, alg = None, RoundingAlgorithm(**rounding)
        for k in stages if cfg['rounding_cache'] else stages[-1:]:
            elp = alg.fit(BoundedPolyhedralCone(A[:k].copy()), elp)
        shape = (elp.L * elp.D) @ elp.L.T
    P = M @ M.T
    if not np.allclose(P / np.trace(P), shape / np.trace(shape), atol=1e-6):
        stats.violation('map', 'directions are drawn with shape {}, expected {}: {}'.format((P / np.trace(P)).tolist(), (shape / np.trace(shape)).tolist(), case), case)
        return
    if rounding is None:
        if not np.allclose(M / M[0, 0], shape, atol=1e-6):
            return stats.violation('map', 'directions {} are not those drawn: {}'.format((M / M[0, 0]).tolist(), case), case)
        M = shape
    final = M
    # starting point, by lines through it
    def crossing(interior=False):
        if interior:  # where chains start without rounding and cache
            x = []
            for d, f in draws[:2]:
                with Tape(dim, [(d, f)]).playing():
                    x.append(HitAndRunSampler(warmup=1, thin=1, cache_samples=False, rounding=False).sample(X.copy(), y.copy(), 1)[0])
            M = np.eye(dim)
        else:
            x = [trained([(d, f)])[0] for d, f in draws[:2]]
            M = final
        D = np.array([M @ draws[0][0], -(M @ draws[1][0])]).T
        t = np.linalg.lstsq(D, x[1] - x[0], rcond=None)[0]
        p = x[0] + t[0] * (M @ draws[0][0])
        return p if np.linalg.norm(x[1] + t[1] * (M @ draws[1][0]) - p) < 1e-6 else None

    x0 = crossing()
    if x0 is None:
        return stats.violation('start', 'chains of different draws do not have a common starting point: {}'.format(case), case)
    if (A @ x0).max() > 1e-7 or np.linalg.norm(x0) > 1 + 1e-7:
        return stats.violation('start', 'chain starts at {}, which is outside of the version space: {}'.format(x0.tolist(), case), case)
    if len(stages) > 1:
        if rounding is None and cfg['cache_samples']:
            good = [s for s in before['samples'] if (A @ s).max() < -1e-9]
            if good and min(np.linalg.norm(s - x0) for s in good) > 1e-6:
                return stats.violation('cached-start', 'chain starts at {}, which is none of the previous samples {}: {}'.format(x0.tolist(), np.array(good).tolist(), case), case)
            if not good:
                stats.check(np.allclose(trained(draws, n=3), trained(draws, n=3, fresh=True), atol=1e-9), 'start', 'without a usable sample, training depends on the past: {}'.format(case), case)
            stats.outcome('cached start' if good else 'no cached start')
        if not cfg['cache_samples'] and not (rounding is not None and cfg['rounding_cache']):
            stats.check(np.allclose(trained(draws, n=3), trained(draws, n=3, fresh=True), atol=1e-9), 'no-cache', 'without caches, training depends on the past: {}'.format(case), case)

    # all runs
    interior = crossing(True)
    L = 3
    settings = [(True, w, t, n) for w in range(1, L + 1) for t in range(1, L) for n in range(1, L + 1) if w + t * (n - 1) <= L and (n > 1 or t == 1)]
    settings += [(False, w, t, n) for w in range(1, L + 1) for n in range(1, L + 1) for t in (1, 2) if w * n <= L]
    sequences = list(itertools.product(range(len(draws)), repeat=L))
    for j, seq in enumerate(sequences):
        tape = [draws[i] for i in seq]
        for q, (single, w, t, n) in enumerate(settings):
            if not cfg['big'] and (q + j) % len(settings) >= 2:  # every sequence with 2 of the settings
                continue
            stats.executions += 1
            got = trained(tape, single, w, t, n)
            starts = [x0]
            if len(stages) > 1 and cfg['cache_samples']:  # samples of the previous training, with this setting
                good = [s for s in before['samples'] if (A @ s).max() < 0]
                starts = starts[:rounding is not None] + (good or [interior])
            for start in starts:
                want = reference(A, start, [(M @ d, f) for d, f in tape], single, w, t, n)
                if got.shape == np.shape(want) and np.allclose(got, want, atol=1e-5):
                    break
            else:
                return stats.violation('chain', 'draws {} with single_chain={}, warmup={}, thin={} give samples {}, expected {}: {}'.format(
                    seq, single, w, t, got.tolist(), np.array(want).tolist(), case), dict(case, draws=seq, setting=[single, w, t, n]))
            stats.state(case, seq, q)
    stats.outcome('{} trainings'.format(len(stages)))
    stats.sample(case)
