"""
Operation histories of a PartitionedDataset, run on the real object and on a reference model (plain dictionaries).
"""
import itertools

import numpy as np

from aideme.explore import LabeledSet, PartitionedDataset

LABELED, INFERRED, UNKNOWN = 'labeled', 'inferred', 'unknown'

INDEXES = {
    'default': None,
    'shifted': lambda n: np.array([10 * (i + 1) for i in range(n)]),
    'reversed': lambda n: np.arange(n)[::-1].copy(),
    'negative': lambda n: np.array([-3, 5, 0, 2, -1, 7][:n]),
    'rotated': lambda n: np.roll(np.arange(n), 1),   # every index is also a valid position of another point
    'string': lambda n: np.array(['d', 'b', 'c', 'a', 'f', 'e'][:n]),
}


def make_data(n):
    return np.array([[100. + i, 7. - 3 * i] for i in range(n)])


class Model:
    """ Reference: where each point is, which label it has, and what the last labeled batch was """
    def __init__(self, index, data):
        self.index = list(index)
        self.rows = {i: tuple(x) for i, x in zip(index, data)}
        self.clear()

    def clear(self):
        self.part = {i: UNKNOWN for i in self.index}
        self.label = {}
        self.partial = {}
        self.order = []
        self.last = ([], [], [])

    def can_move(self, batch, target):
        return len(set(batch)) == len(batch) and all(i in self.part and self.part[i] != target for i in batch)

    def move_to_labeled(self, batch, labels, partial):
        for i, lb, p in zip(batch, labels, partial):
            self.part[i], self.label[i], self.partial[i] = LABELED, lb, tuple(p)
        self.last = (list(batch), list(labels), [tuple(p) for p in partial])

    def move(self, batch, target):
        for i in batch:
            self.part[i] = target
            self.label.pop(i, None)
            self.partial.pop(i, None)

    def remove_inferred(self):
        for i, p in self.part.items():
            if p == INFERRED:
                self.part[i] = UNKNOWN

    def members(self, *parts):
        return {i for i, p in self.part.items() if p in parts}

    def canon(self):
        return (tuple(self.part.items()), tuple(sorted((repr(k), v) for k, v in self.label.items())),
                tuple(sorted((repr(k), v) for k, v in self.partial.items())), repr(self.last))


class System:
    """ Real object together with its model """
    def __init__(self, n, index_kind, copy=True, n_partial=1):
        make = INDEXES[index_kind]
        self.data0 = make_data(n)
        self.index0 = np.arange(n) if make is None else make(n)
        self.user_data, self.user_index = self.data0.copy(), self.index0.copy()
        self.real = PartitionedDataset(self.user_data, None if make is None else self.user_index, copy=copy)
        self.model = Model(self.index0.tolist(), self.data0)
        self.n_partial = n_partial
        self.labeled_sets = []  # (user's object, its content when it was given)

    # -- resolving symbolic batches: either explicit points, or a view of one of the partitions
    def resolve(self, batch):
        if isinstance(batch, str):
            part, kind = batch.split(':')
            view = getattr(self.real, part).index
            n = len(view)
            if kind == 'all':
                arg = view
            elif kind == 'rev':
                arg = view[::-1]
            elif kind == 'first':
                arg = view[:1]
            elif kind == 'last2rev':
                arg = view[::-1][:2]
            elif kind == 'tail':
                arg = view[n // 2:]
            return arg, [x.item() if hasattr(x, 'item') else x for x in np.array(arg)]
        pts = [self.model.index[k] if k < len(self.model.index) else self.missing() for k in batch]
        return pts, list(pts)

    def missing(self):
        return 'zz' if isinstance(self.model.index[0], str) else 99

    def labels_for(self, pattern, k):
        labels = [(pattern >> (j % 2)) & 1 for j in range(k)]
        if self.n_partial == 1:
            return labels, [[lb] for lb in labels]
        return labels, [[lb] + [(lb + j + c) % 2 for c in range(1, self.n_partial)] for j, lb in enumerate(labels)]

    def apply(self, op):
        """
        :return: (expected to succeed, exception raised or None)
        """
        name = op[0]
        try:
            if name == 'L':
                arg, pts = self.resolve(op[1])
                labels, partial = self.labels_for(op[2], len(pts))
                ok = self.model.can_move(pts, LABELED)
                ls = LabeledSet(labels, None if self.n_partial == 1 else partial, index=arg)
                self.labeled_sets.append((ls, ls.labels.tolist(), ls.partial.tolist(), pts))
                self.real.move_to_labeled(ls)
                if ok:
                    self.model.move_to_labeled(pts, labels, partial)
                return ok, None
            if name == 'W':  # labels with more partial labels than those of the points labeled so far
                arg, pts = self.resolve(op[1])
                ok = not self.model.members(LABELED)
                if not ok:
                    self.real.move_to_labeled(LabeledSet([1.] * len(pts), [[1.] * (self.n_partial + 1)] * len(pts), index=arg))
                return ok, None
            if name in 'IU':
                arg, pts = self.resolve(op[1])
                target = INFERRED if name == 'I' else UNKNOWN
                ok = self.model.can_move(pts, target)
                form = op[2] if len(op) > 2 else 'as-is'
                if form == 'gen':
                    arg = iter(list(arg))
                elif form == 'tuple':
                    arg = tuple(arg)
                (self.real.move_to_inferred if name == 'I' else self.real.move_to_unknown)(arg)
                if ok:
                    self.model.move(pts, target)
                return ok, None
            if name == 'R':
                ok = True
                self.real.remove_inferred()
                self.model.remove_inferred()
                return ok, None
            if name == 'C':
                ok = True
                self.real.clear()
                self.model.clear()
                return ok, None
            if name == 'P':
                ok = True
                ls = self.real.labeled_set
                new = [[(lb + k + op[1]) % 2, 1 - lb] for k, lb in enumerate(ls.labels.tolist())]
                self.real.set_partial_labels(np.array(new).reshape(len(new), 2))
                for i, p in zip(ls.index.tolist(), new):
                    self.model.partial[i] = tuple(p)
                return ok, None
        except (ValueError, KeyError) as e:
            return ok, e
        raise ValueError(op)

    def internal(self):
        """ everything observable of the real object, in order """
        r = self.real
        return (r.index.tolist(), r.data.tolist(), r.labeled_size, r.inferred_size, r.labeled_set.index.tolist(),
                r.labeled_set.labels.tolist(), r.labeled_set.partial.tolist(), r.last_training_set()[0].tolist(),
                r.last_training_set()[1].tolist())


def batches(n, max_size):
    for k in range(0, max_size + 1):
        yield from itertools.permutations(range(n), k)
