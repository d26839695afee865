"""Reference values of the factorization model: the probability of a point is the product of the sigmoids of its margins."""
import math

import numpy as np


def softplus(x):
    return x + math.log1p(math.exp(-x)) if x > 0 else math.log1p(math.exp(x))


def log_proba(margins):
    return -sum(softplus(-m) for m in margins)


def log_complement(lp):
    """ log(1 - exp(lp)) """
    if lp >= 0:
        return -math.inf
    return math.log1p(-math.exp(lp)) if lp < -0.6931471805599453 else math.log(-math.expm1(lp))


def sigmoid(x):
    return 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))


def margins_of(X, bias, weights):
    """ X: points x features, or subspaces-specific rows given as X[point][feature][subspace] """
    res = []
    for x in X:
        row = []
        for k in range(len(weights)):
            xk = [v[k] for v in x] if np.ndim(x) == 2 else x
            row.append(math.fsum([float(a) * float(b) for a, b in zip(xk, weights[k])] + [float(bias[k])]))
        res.append(row)
    return res


def loss_and_grad(X, y, bias, weights):
    """ loss, derivative with respect to weights, and with respect to bias """
    K, D, N = len(weights), len(weights[0]), len(X)
    gw, gb, total = [[[] for _ in range(D)] for _ in range(K)], [[] for _ in range(K)], []
    for x, lb, ms in zip(X, y, margins_of(X, bias, weights)):
        lp = log_proba(ms)
        total.append(-lp if lb > 0 else -log_complement(lp))
        for k in range(K):
            c = sigmoid(-ms[k])  # derivative of log-sigmoid
            f = -c if lb > 0 else c * math.exp(lp) / -math.expm1(lp)
            gb[k].append(f)
            for d in range(D):
                gw[k][d].append(f * float(x[d][k] if np.ndim(x) == 2 else x[d]))
    return math.fsum(total) / N, np.array([[math.fsum(v) / N for v in r] for r in gw]), np.array([math.fsum(v) / N for v in gb])
