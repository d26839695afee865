""" Enumeration of version spaces {w: A w <= 0, |w| <= 1} with integer constraints. """
import itertools

import numpy as np

from checks.geometry import in_cone


def solid(rows):
    """ whether some w satisfies A w < 0 (exact, by Gordan's theorem) """
    rows = list(dict.fromkeys(rows))
    if any(not any(r) for r in rows):
        return False
    return not any(in_cone(tuple(-v for v in r), tuple(rows[:i] + rows[i + 1:])) for i, r in enumerate(rows))


def vectors(dim, values):
    return [v for v in itertools.product(values, repeat=dim) if any(v)]


def cones(dim, values, max_rows, min_rows=1):
    vs = vectors(dim, values)
    for k in range(min_rows, max_rows + 1):
        yield from itertools.combinations(vs, k)


def members(rows, dim, bound, strict=False):
    """ integer directions of the cone """
    A = np.array(rows)
    W = np.array(vectors(dim, range(-bound, bound + 1)))
    m = (W @ A.T).max(axis=1)
    return W[m < 0] if strict else W[m <= 0]
