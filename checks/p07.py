from checks.pool import RecordingLearner
from checks.datasets import *

from aideme.active_learning import ActiveLearner
from aideme.explore import ExplorationManager

PROPERTY = 'P07'
RULE = 'every history of partition operations up to the depth of the shard followed by label prediction, for every prediction vector of ' \
       'the learner over the points; the result is compared point by point with user labels and predictions'
ASSUMPTIONS = ['at most 4 points', 'predicted labels are 0 or 1']


class Oracle(ActiveLearner):
    """ predicts label of point k as bit k of the mask, whatever the order of rows """
    def __init__(self, mask, dtype):
        self.mask, self.dtype, self.calls = mask, dtype, []

    def fit(self, X, y):
        pass

    def predict(self, X):
        self.calls.append(X.tolist())
        return np.array([(self.mask >> int(x - 100)) & 1 for x in X[:, 0]], dtype=self.dtype)


def configs(tier):
    res = []
    for index in INDEXES:
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            res.append({'n': n, 'index': index, 'depth': 2 if n > 3 or tier == 'quick' else 3})
    res += [{'n': 4, 'index': 'rotated', 'depth': 2, 'bits': b} for b in range(4)]
    return sorted(res, key=lambda c: -c['n'])


def run(cfg, stats):
    n = cfg['n']
    ops = [('L', b, p) for b in batches(n, 2) if b for p in ((0, 1) if len(b) == 1 else (1, 2))] + [('L', tuple(range(n)), 1)] + \
          [(m, b) for m in 'IU' for b in batches(n, 1) if b] + [('R',), ('C',)]

    def rec(hist):
        for mask in range(cfg.get('bits', 0), 2 ** n, 4 if 'bits' in cfg else 1):
            s = System(n, cfg['index'])
            for op in hist:
                s.apply(op)
            before = s.internal()
            dtype = (float, int, bool)[mask % 3]
            learner = Oracle(mask, dtype)
            manager = ExplorationManager(s.real, learner)
            for name, f in (('dataset', lambda: s.real.predict_user_labels(learner)), ('manager', manager.compute_user_labels_prediction)):
                ls = f()
                expected = {i: s.model.label.get(i, (mask >> k) & 1) for k, i in enumerate(s.model.index)}
                got = dict(zip(ls.index.tolist(), [float(x) for x in ls.labels]))
                if got != expected or len(ls) != n or len(ls.labels) != n:
                    stats.violation('prediction:' + name, 'predicted labels are {}, expected {}; user labels {}\nhistory: {}'.format(
                        got, expected, s.model.label, hist), {'history': hist, 'mask': mask})
                elif ls.partial.shape[0] != n:
                    stats.violation('partial:' + name, 'shape of partial labels is {}'.format(ls.partial.shape), {'history': hist})
                asked = {int(x[0] - 100) for call in learner.calls for x in call}
                if any(s.model.part[s.model.index[k]] == LABELED for k in asked):
                    stats.violation('asked', 'learner was asked to predict labeled points: {}\nhistory: {}'.format(asked, hist), {'history': hist})
                stats.executions += 1
            stats.step()
            if s.internal() != before:
                stats.violation('side-effect', 'predicting labels changed the dataset\nhistory: {}'.format(hist), {'history': hist})
            stats.state(mask, before)
            stats.outcome('labeled={}'.format(s.real.labeled_size))
        if len(hist) < cfg['depth']:
            for op in ops:
                rec(hist + [op])

    rec([])
    stats.sample({'history': [ops[0], ops[-1]], 'mask': 1})
