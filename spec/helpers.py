"""Reference definitions of the helpers (analysed, never executed)."""
import numpy as np


def weighted_mean(a, w, axis):
    """weighted mean of the numbers present, along an axis"""
    n, m = a.shape
    if axis == 1:
        a = a.T
        n, m = m, n
    return np.array([sum([w[i] * a[i, j] for i in range(n) if not np.isnan(a[i, j])]) / sum([w[i] for i in range(n) if not np.isnan(a[i, j])]) for j in range(m)])


def gaussian(x, m, s):
    return np.exp(-((x - m) / s) ** 2 / 2.0) / (s * np.sqrt(2 * np.pi))


def logistic(x, m, s):
    e = np.exp(-(x - m) / s)
    return e / (s * (1 + e) ** 2)


def two_uniforms(x, m1, w1, m2, w2):
    """density of the sum of two independent uniform variables of widths w1, w2 about m1, m2:
    overlap of the intervals [x - m1 - w1/2, x - m1 + w1/2] and [m2 - w2/2, m2 + w2/2], over w1 w2"""
    lo = max(x - m1 - w1 / 2.0, m2 - w2 / 2.0)
    hi = min(x - m1 + w1 / 2.0, m2 + w2 / 2.0)
    return max(0.0, hi - lo) / (w1 * w2)


def counts(xs):
    """how often each number occurs"""
    out = {}
    for x in xs:
        if not np.isnan(x):
            out[x] = sum([1 if y == x else 0 for y in xs if not np.isnan(y)])
    return out


def positions(xs, f):
    out = []
    for i in range(len(xs)):
        if f(xs[i]):
            out.append(i)
    return out


def distinct(xs):
    return sorted(set(xs))


def each(f, xs):
    return [f(x) for x in xs]


def covered(xs, ys, lo, hi):
    """percentage of the true values within their own interval"""
    k = 0
    for i in range(len(xs)):
        if ys[i] - lo[i] <= xs[i] and xs[i] <= ys[i] + hi[i]:
            k = k + 1
    return 100.0 * k / len(xs)
