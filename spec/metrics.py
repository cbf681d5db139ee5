"""Reference definitions of the prediction metrics (analysed, never executed)."""
import numpy as np
from spec.routine import rmse, pcc, srcc, kendall


def mean(x):
    return sum([a for a in x]) / len(x)


def summary(y, how):
    return y if not hasattr(y, '__len__') else mean(y) if how is None else how(y)


def mapped(xs, ys):
    """predictions through the logistic curve whose inverse fits them best (least squares) on the scores scaled to (0, 1)"""
    hi = max(ys) + 0.1
    lo = min(ys) - 0.1
    z = [np.log((y - lo) / (hi - y)) for y in ys]
    mx = mean(xs)
    mz = mean(z)
    b = sum([(u - mz) * (x - mx) for u, x in zip(z, xs)]) / sum([(u - mz) ** 2 for u in z])
    a = mx - b * mz
    return [lo + (hi - lo) / (1.0 + np.exp(-(x - a) / b)) for x in xs]


def metric(kind, truths, preds, how, mapping):
    ys = [summary(y, how) for y in truths]
    xs = [x for x in preds]
    if mapping:
        xs = mapped(xs, ys)
    if kind == 'RMSE':
        s = rmse(ys, xs)
    elif kind == 'PCC':
        s = pcc(ys, xs)
    elif kind == 'SRCC':
        s = srcc(ys, xs)
    else:
        s = kendall(ys, xs)
    return {'score': s}
