"""Reference definitions for paired comparisons (analysed, never executed)."""
import numpy as np
from scipy.stats import norm
from scipy.optimize import minimize


def subjects(ds):
    names = []
    for dv in ds.dis_videos:
        for key in dv['os']:
            names.append(key[0])
    return sorted(set(names))


def votes(ds):
    """X[i, j, s]: result of stimulus (position) i against j by subject s; nan if not compared"""
    names = subjects(ds)
    n = len(ds.dis_videos)
    X = np.full([n, n, len(names)], np.nan)
    for i, dv in enumerate(ds.dis_videos):
        for key, v in dv['os'].items():
            for j, dv2 in enumerate(ds.dis_videos):
                if dv2['asset_id'] == key[1]:
                    s = names.index(key[0])
                    X[i, j, s] = v
                    X[j, i, s] = 1.0 - v
    return X


def num_subjects(ds):
    return len(subjects(ds))


def wins(ds):
    return np.nansum(votes(ds), axis=2)


def bt_mle(ds, square):
    """maximum likelihood by minorisation-maximisation; covariance by the bordered information matrix"""
    a = wins(ds)
    M = a.shape[0]
    n = a + a.T
    p = np.full([M], 1.0 / M)
    change = 1.0
    while change > 1e-8:
        q = np.array([np.sum(a[i, :]) / np.sum(np.array([n[i, j] / (p[i] + p[j]) for j in range(M)])) for i in range(M)])
        q = q / np.sum(q)
        change = np.sqrt(np.sum((q - p) ** 2))
        p = q
    pp = np.array([[p[i] + p[j] for j in range(M)] for i in range(M)])
    H = np.array([[(n[i, j] / pp[i, j] ** 2 if square else 2 * n[i, j] / pp[i, j]) for j in range(M)] for i in range(M)])
    d = np.array([np.sum(n[i, :] / pp[i, :] ** 2) - np.sum(a[i, :]) / p[i] ** 2 for i in range(M)])
    H = H + np.diag(d)
    B = np.zeros([M + 1, M + 1])
    B[:M, :M] = -H
    B[:M, M] = 1.0
    B[M, :M] = 1.0
    cov = np.linalg.pinv(B)
    std = np.sqrt(np.diagonal(cov)[:M])
    cov = cov[:M, :M]
    v = np.log(p)
    return {'quality_scores': v, 'quality_scores_p': p,
            'quality_scores_std': std / p, 'quality_scores_p_std': std,
            'quality_scores_ci95': [1.95996 * std / p, 1.95996 * std / p],
            'quality_scores_p_cov': cov,
            'quality_scores_v_cov': np.array([[cov[i, j] / p[i] / p[j] for j in range(M)] for i in range(M)])}


def thurstone_objective(v, alpha):
    M = alpha.shape[0]
    eps = 1e-8 / M
    t = np.array([[alpha[i, j] * np.log(norm.cdf(v[i] - v[j]) + eps) + alpha[j, i] * np.log(norm.cdf(v[j] - v[i]) + eps) for j in range(M)] for i in range(M)])
    return -np.sum(t)


def thurstone(ds, zscore=False, exact=False):
    a = wins(ds)
    M = a.shape[0]
    n = a + a.T
    v = minimize(lambda x: thurstone_objective(x, a), np.zeros(M), method='SLSQP', jac='2-point', options={'ftol': 1e-8, 'disp': True, 'maxiter': 1000}).x
    # minus the second derivative of log Phi at d = v_i - v_j
    g = lambda d: d * norm.pdf(d) / norm.cdf(d) + (norm.pdf(d) / norm.cdf(d)) ** 2
    if exact:
        w = np.array([[a[i, j] * g(v[i] - v[j]) + a[j, i] * g(v[j] - v[i]) for j in range(M)] for i in range(M)])
    else:
        w = np.array([[n[i, j] * g(v[i] - v[j]) for j in range(M)] for i in range(M)])
    B = np.zeros([M + 1, M + 1])
    B[:M, :M] = -w + np.diag(np.sum(w, axis=1))
    B[:M, M] = 1.0
    B[M, :M] = 1.0
    std = np.sqrt(np.diagonal(np.linalg.pinv(B))[:M])
    if zscore:
        sd = np.std(v)
        v = (v - np.mean(v)) / sd
        std = std / sd
    return {'quality_scores': v, 'quality_scores_std': std, 'quality_scores_ci95': [1.95996 * std, 1.95996 * std]}


def mirrored(ds):
    """every win becomes a loss"""
    for dv in ds.dis_videos:
        for key in dv['os']:
            dv['os'][key] = 1.0 - dv['os'][key]
    return ds
