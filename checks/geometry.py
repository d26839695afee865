"""
Exact geometry over points with integer coordinates, used as oracle for polytope models.
"""
import itertools
from fractions import Fraction
from functools import lru_cache

import numpy as np


def rank(vectors):
    rows = [[Fraction(x) for x in v] for v in vectors]
    r, cols = 0, len(rows[0]) if rows else 0
    for c in range(cols):
        piv = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if piv is None:
            continue
        rows[r], rows[piv] = rows[piv], rows[r]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                f = rows[i][c] / rows[r][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        r += 1
    return r


def det(m):
    if len(m) == 1:
        return m[0][0]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    if len(m) == 3:
        (a, b, c), (d, e, f), (g, h, i) = m
        return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(len(m)))


@lru_cache(maxsize=None)
def spanned(gens):
    """ bases of the cone: linearly independent subsets of maximal size with their determinant, and whether gens have full rank """
    dim = len(gens[0])
    return [(sub, d) for sub in itertools.combinations(gens, dim) for d in [det([list(g) for g in sub])] if d != 0]


@lru_cache(maxsize=None)
def in_cone(v, gens):
    """ whether v is a non-negative combination of gens (tuples of integers), by Caratheodory's theorem """
    if not any(v):
        return True
    if not gens:
        return False
    dim = len(v)
    bases = spanned(gens)
    if bases:
        # every conic combination uses linearly independent generators, which can be extended to a basis made of generators
        for sub, d in bases:
            if all(det([list(v) if k == j else list(g) for k, g in enumerate(sub)]) * d >= 0 for j in range(dim)):
                return True
        return False
    # generators span a proper subspace: drop a coordinate which is a combination of other ones
    r = rank(gens)
    if rank(gens + (v,)) > r:
        return False
    for keep in itertools.combinations(range(dim), r):
        small = tuple(tuple(g[k] for k in keep) for g in gens)
        if rank(small) == r:
            return in_cone(tuple(v[k] for k in keep), small)
    raise AssertionError


@lru_cache(maxsize=None)
def in_hull(x, points):
    return in_cone(x + (1,), tuple(p + (1,) for p in points))


@lru_cache(maxsize=None)
def in_negative_cone(x, vertex, points):
    """ whether vertex belongs to the convex hull of points and x, i.e. x - vertex is a combination of vertex - points """
    return in_cone(tuple(a - b for a, b in zip(x, vertex)), tuple(tuple(b - a for a, b in zip(p, vertex)) for p in points))


@lru_cache(maxsize=None)
def spans(points):
    """ whether points are not contained in a hyperplane """
    return len(points) > 0 and rank([tuple(a - b for a, b in zip(p, points[0])) + (0,) for p in points]) == len(points[0])


@lru_cache(maxsize=None)
def conflict(pos, neg):
    """ (some negative point is in the hull of positive ones, and this one spans the whole space together with them) """
    inside = [n for n in neg if pos and in_hull(n, pos)]
    return bool(inside), any(spans((n,) + pos) for n in inside)


@lru_cache(maxsize=None)
def expected(x, pos, neg):
    """
    :return: set of admissible predictions for x, when pos and neg do not conflict
    """
    res = set()
    if pos and in_hull(x, pos):
        res |= {1.0} if spans(pos) else {1.0, 0.5}
    cones = [n for n in neg if pos and in_negative_cone(x, n, pos)]
    if cones:
        res |= {0.0} if any(spans((n,) + pos) for n in cones) else {0.0, 0.5}
    return res or {0.5}


def arr(points):
    return np.array(points, dtype=float)
