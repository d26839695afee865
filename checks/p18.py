from aideme.active_learning.dsm.polytope import CategoricalPolytope
from aideme.active_learning.version_space.categorical import CategoricalActiveLearner
from aideme.explore import LabeledSet, PartitionedDataset
from checks.polytopes import *

PROPERTY = 'P18'
RULE = 'every sequence of labeled categories up to the length of the shard and every division into batches, for 2 to 4 categories: validity, ' \
       'predictions, probabilities and ranks are compared with the labels seen so far; the learner is also driven through a dataset'
ASSUMPTIONS = ['one categorical column, one-hot encoded']


def configs(tier):
    res = []
    for k in (2, 3, 4):
        for length in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            if k == 4 and length >= 4 and tier == 'quick':
                continue
            res += [{'mode': m, 'k': k, 'length': length} for m in ('model', 'learner')]
    return sorted(res, key=lambda c: -c['length'] * c['k'])


def onehot(cs, k):
    return np.array([[float(c == j) for j in range(k)] for c in cs]).reshape(len(cs), k)


def run(cfg, stats):
    k, n = cfg['k'], cfg['length']
    items = [(c, lb) for c in range(k) for lb in (0, 1)]
    Q = np.eye(k)
    for seq in itertools.product(items, repeat=n):
        for mask in range(2 ** (n - 1)) if n < 5 else (0, 15, 5):
            batches = split(seq, mask)
            stats.current = {'batches': batches}
            stats.executions += 1
            if cfg['mode'] == 'model':
                model(cfg, batches, Q, stats)
            elif mask in (0, 2 ** (n - 1) - 1, 1):
                learner(cfg, batches, Q, stats)
    stats.sample({'batches': batches})


def model(cfg, batches, Q, stats):
    k = cfg['k']
    pol = CategoricalPolytope()
    known = {}
    what = 'batches of (category, label) {}'.format(batches)
    for batch in batches:
        X, y = onehot([c for c, _ in batch], k), np.array([lb for _, lb in batch], dtype=float)
        for c, lb in batch:
            known.setdefault(c, set()).add(lb)
        ok = pol.update(X, y)
        stats.step()
        conflict = any(len(v) == 2 for v in known.values())
        if bool(ok) == conflict or bool(pol.is_valid) == conflict:
            return stats.violation('validity', 'update returned {} and is_valid is {}: {}'.format(ok, pol.is_valid, what), {'batches': batches})
        want = [0.5 if conflict or c not in known else float(max(known[c])) for c in range(k)]
        if pol.predict(Q).tolist() != want:
            return stats.violation('predictions', 'predictions are {}, expected {}: {}'.format(pol.predict(Q).tolist(), want, what), {'batches': batches})
        stats.state(k, sorted((c, sorted(v)) for c, v in known.items()), want)
        if conflict:
            stats.outcome('conflict')
            try:
                pol.update(X, y)
                return stats.violation('invalid-update', 'update of an invalid model is accepted: {}'.format(what), {'batches': batches})
            except RuntimeError:
                break
        stats.outcome('valid')
    pol.clear()
    if not pol.is_valid or pol.predict(Q).tolist() != [0.5] * k:
        stats.violation('clear', 'cleared model still knows something: {}'.format(what), {'batches': batches})


def learner(cfg, batches, Q, stats):
    """ rows of the dataset: every category three times """
    k = cfg['k']
    cats = [c for c in range(k) for _ in range(4)]
    data = PartitionedDataset(onehot(cats, k))
    free = {c: [i for i, d in enumerate(cats) if d == c] for c in range(k)}
    al = CategoricalActiveLearner()
    known = {}
    # the first two batches may come from initial sampling: learner is then fitted for the first time after the second one
    for late in (False, True):
        data.clear()
        al.clear()
        left = {c: list(v) for c, v in free.items()}
        known = {}
        for j, batch in enumerate(batches):
            idx = [left[c].pop() if left[c] else None for c, _ in batch]
            if None in idx:
                return
            data.move_to_labeled(LabeledSet([lb for _, lb in batch], index=idx))
            for c, lb in batch:
                known.setdefault(c, set()).add(lb)
            if late and j == 0 and len(batches) > 1:
                continue
            conflict = any(len(v) == 2 for v in known.values())
            try:
                al.fit_data(data)
                raised = False
            except RuntimeError:
                raised = True
            if raised != conflict:
                return stats.violation('learner-conflict', 'fit {} for labels {}: batches {}, late={}'.format('raises' if raised else 'accepts', known, batches, late), {'batches': batches})
            if conflict:
                stats.outcome('learner conflict')
                break
            p = [0.5 if c not in known else float(max(known[c])) for c in range(k)]
            if al.predict_proba(Q).tolist() != p or al.predict(Q).tolist() != [float(x > 0.5) for x in p] or al.rank(Q).tolist() != [abs(x - 0.5) for x in p]:
                return stats.violation('learner-predictions', 'learner predicts {} {}, expected {}: batches {}, late={}'.format(
                    al.predict_proba(Q), al.predict(Q), p, batches, late), {'batches': batches})
            stats.outcome('learner')
            stats.state('learner', k, p)
            # fit() forgets everything else
            if j == len(batches) - 1 and not late:
                X, y = data.training_set()
                al.fit(X, y)
                if al.predict_proba(Q).tolist() != p:
                    return stats.violation('learner-fit', 'learner predicts {} after fit, expected {}: batches {}'.format(al.predict_proba(Q), p, batches), {'batches': batches})
                al.fit(X[:1], y[:1])
                first = [float(y[0]) if X[0, c] == 1 else 0.5 for c in range(k)]
                if al.predict_proba(Q).tolist() != first:
                    return stats.violation('learner-refit', 'learner predicts {} after fit over one point, expected {}'.format(al.predict_proba(Q), first), {'batches': batches})
