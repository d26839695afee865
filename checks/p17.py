from aideme.active_learning.dsm.model import FactorizedPolytopeModel
from aideme.active_learning.dsm.polytope import CategoricalPolytope, FlippedPolytope, MultiSetPolytope, PersistentPolytope, Polytope
from checks.polytopes import *

PROPERTY = 'P17'
RULE = 'every sequence of labeled points with every combination of partial labels up to the length of the shard and every division into ' \
       'batches, for partitions into disjoint, overlapping and mixed subspaces; validity, partial and final predictions are compared with ' \
       'independent models of every subspace'
ASSUMPTIONS = ['two or three subspaces', 'points have small integer coordinates']

# columns 0, 1: numerical; 2, 3: encoding of a category / a set
ROWS = [(0, 0, 1, 0), (2, 4, 0, 1), (4, 2, 1, 0), (2, 0, 1, 1), (0, 4, 0, 1)]
QUERIES = [(a, b, c, 1 - c) for a in (-1, 0, 1, 2, 3, 4, 5) for b in (-1, 0, 1, 2, 3, 4) for c in (0, 1)] + [(1, 1, 1, 1), (2, 2, 1, 1)]

KINDS = {'positive': Polytope, 'negative': FlippedPolytope, 'persist': PersistentPolytope, 'categorical': CategoricalPolytope, 'multiset': MultiSetPolytope}

SETTINGS = [
    {'partition': [[0], [1]], 'mode': 'positive'},
    {'partition': [[0], [1]], 'mode': ['negative', 'persist']},
    {'partition': [[0], [2, 3]], 'mode': ['persist', 'categorical']},
    {'partition': [[1, 0], [2, 3]], 'mode': ['positive', 'multiset']},
    {'partition': [[0], [0, 1]], 'mode': ['positive', 'negative']},
    {'partition': ['slice', [1]], 'mode': 'persist'},
    {'partition': [[0], [1], [2, 3]], 'mode': ['persist', 'persist', 'categorical']},
    {'partition': None, 'mode': 'persist'},
]


def configs(tier):
    big = tier == 'thorough'
    res = []
    for s in range(len(SETTINGS)):
        for length in (1, 2, 3):
            three = s == 6
            if three and length == 3 and not big:
                continue
            parts = 6 if length == 3 else 1
            res += [{'setting': s, 'length': length, 'part': [k, parts]} for k in range(parts)]
        if big and s in (0, 1, 7):
            res += [{'setting': s, 'length': 4, 'part': [k, 32]} for k in range(32)]
    return sorted(res, key=lambda c: -c['length'])


def columns(p):
    return [0] if p == 'slice' else p


def run(cfg, stats):
    setting = SETTINGS[cfg['setting']]
    partition = None if setting['partition'] is None else [slice(0, 1) if p == 'slice' else list(p) for p in setting['partition']]
    cols = [[0, 1, 2, 3]] if partition is None else [columns(p) for p in setting['partition']]
    modes = [setting['mode']] * len(cols) if isinstance(setting['mode'], str) else setting['mode']
    Q = arr(QUERIES)
    n, k_sub = cfg['length'], len(cols)
    partials = list(itertools.product((0, 1), repeat=k_sub))
    items = list(itertools.product(range(len(ROWS)), range(len(partials))))
    if n >= 3:
        items = [it for it in items if it[0] < (4 if n == 3 else 3)]
    for k, seq in enumerate(itertools.product(items, repeat=n)):
        if k % cfg['part'][1] != cfg['part'][0]:
            continue
        if len({(r, p) for r, p in seq}) < n:
            continue
        for mask in range(2 ** (n - 1)) if n < 3 else (0b11, (0b00, 0b01, 0b10)[k % 3]):
            batches = split(seq, mask)
            check(cfg, partition, cols, modes, partials, batches, Q, stats)
    stats.sample({'setting': setting, 'batches': batches})


def check(cfg, partition, cols, modes, partials, batches, Q, stats):
    mode = SETTINGS[cfg['setting']]['mode']
    model = FactorizedPolytopeModel(partition, mode)
    refs = [KINDS[m]() for m in modes]
    what = {'setting': SETTINGS[cfg['setting']], 'batches': [[(ROWS[r], partials[p]) for r, p in b] for b in batches]}
    stats.current = what
    stats.executions += 1
    for j, batch in enumerate(batches):
        X, y = arr([ROWS[r] for r, _ in batch]), arr([partials[p] for _, p in batch])
        stats.step()
        if not any(r.is_valid for r in refs):
            try:
                model.update(X, y)
                return stats.violation('invalid-update', 'update of an invalid model is accepted: {}'.format(what), what)
            except RuntimeError:
                stats.outcome('rejected')
                return
        want = True
        for i, (c, r) in enumerate(zip(cols, refs)):
            if r.is_valid:
                want &= bool(r.update(X[:, c], y[:, i]))
        got = model.update(X, y)
        if bool(got) != want:
            return stats.violation('return-value', 'update returns {}, expected {} (batch {}): {}'.format(got, want, j, what), what)
        valid = [r.is_valid for r in refs]
        if bool(model.is_valid) != any(valid):
            return stats.violation('validity', 'is_valid is {}, subspaces are {}: {}'.format(model.is_valid, valid, what), what)
        partial = np.array([r.predict(Q[:, c]) if r.is_valid else np.full(len(Q), 0.5) for c, r in zip(cols, refs)]).T
        if model.predict_partial(Q).tolist() != partial.tolist():
            return stats.violation('partial', 'wrong partial predictions (batch {}): {}'.format(j, what), what)
        final = model.predict(Q).tolist()
        if final != partial.min(axis=1).tolist():
            bad = [(q, a, b) for q, a, b in zip(QUERIES, final, partial.tolist()) if a != min(b)]
            return stats.violation('final', 'wrong final predictions (point, prediction, partial predictions): {} (batch {}): {}'.format(bad[:3], j, what), what)
    stats.state(what)
    stats.outcome('valid={}'.format(valid))
    model.clear()
    if not model.is_valid or model.predict(Q).tolist() != [0.5] * len(Q) or model.predict_partial(Q).tolist() != [[0.5] * len(cols)] * len(Q):
        stats.violation('clear', 'cleared model still knows something: {}'.format(what), what)
