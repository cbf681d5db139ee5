"""Reference definitions of the simulating and selecting readers (analysed, never executed)."""
import numpy as np
from spec.readers import votes_list, votes_dict, mos


def content(ds):
    return [dv['content_id'] for dv in ds.dis_videos]


def cube(z, E, S):
    X = np.zeros([E, S, 1])
    for e in range(E):
        for s in range(S):
            X[e, s, 0] = z[e, s]
    return X


def synthetic(ds, q, b, sigma, mu, delta, phi=None, seed=None):
    E, S = len(ds.dis_videos), len(b)
    if seed is not None:
        np.random.seed(seed)
    c = content(ds)
    n1 = np.random.normal(0, 1, [E, S])
    n2 = np.random.normal(0, 1, [E, S])
    z = np.array([[q[e] + b[s] + n1[e, s] * sigma[s] + mu[c[e]] + n2[e, s] * delta[c[e]] for s in range(S)] for e in range(E)])
    if phi is not None:
        n3 = np.random.normal(0, 1, [E, S])
        z = np.array([[z[e, s] + n3[e, s] * phi[e] for s in range(S)] for e in range(E)])
    return cube(z, E, S)


def logistic(ds, q, b, sigma, mu, delta):
    E, S = len(ds.dis_videos), len(b)
    c = content(ds)
    k = np.sqrt(3) / np.pi
    n1 = np.random.logistic(0, 1, [E, S])
    n2 = np.random.logistic(0, 1, [E, S])
    z = np.array([[q[e] + b[s] + n1[e, s] * sigma[s] * k + mu[c[e]] + n2[e, s] * delta[c[e]] * k for s in range(S)] for e in range(E)])
    return cube(z, E, S)


def votes(ds, style):
    if style == 'list':
        return votes_list(ds)
    return votes_dict(ds)


def select_subjects(ds, sel, style):
    return votes(ds, style)[:, sel, :]


def select_videos(ds, sel, style):
    """positions sel of the dataset, in that order"""
    return votes(ds, style)[sel, :, :]


def select_mos(ds, sel, style):
    return mos(select_subjects(ds, sel, style))


def select_videos_mos(ds, sel, style):
    return mos(select_videos(ds, sel, style))
