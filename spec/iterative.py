"""Reference definitions of the iterative estimators (analysed, never executed)."""
import numpy as np
from scipy.stats import chi2
from spec.models import votes, votes_by_subject, mean_e, mean_s, var_s, var_e, differential, zscored, unbiased


def sum_e(A):
    return np.nansum(np.nansum(A, axis=2), axis=1)


def sum_s(A):
    return np.nansum(np.nansum(A, axis=2), axis=0)


def ones(X):
    """1 where a vote was cast, nan elsewhere"""
    return X * 0.0 + 1.0


def inconsistency_ci(v, n):
    return [(1 - np.sqrt(n / chi2.ppf(0.975, df=n))) * v,
            (np.sqrt(n / chi2.ppf(0.025, df=n)) - 1) * v]


def criteria(ret, dof, total, ll):
    ret['dof'] = dof / total
    ret['loglikelihood'] = ll
    ret['aic'] = 2 * dof / total - 2 * ll
    ret['bic'] = np.log(total) * dof / total - 2 * ll


def projection(X, ds, std='subject', gauge=True, dscore=False):
    """alternating projection (ITU-T P.910): quality, subject bias and subject inconsistency"""
    cast = X
    if dscore:
        X = differential(X, ds)
    E, S, R = X.shape
    q = mean_e(X)
    b = mean_s(X - q[:, None, None])
    k = 0
    while True:
        old = q
        res = X - q[:, None, None] - b[None, :, None]
        v = np.sqrt(var_s(res, 0))
        vq = np.sqrt(var_e(res, 0))
        w = 1.0 / (v ** 2 + 1e-8)
        W = ones(X) * w[None, :, None]
        q = sum_e(W * (X - b[None, :, None])) / sum_e(W)
        b = mean_s(X - q[:, None, None])
        k = k + 1
        if np.sqrt(np.sum((old - q) ** 2)) < 1e-8:
            break
        if k >= 1000:
            break
    if std == 'subject':
        qstd = 1.0 / np.sqrt(sum_e(ones(X) / (v ** 2)[None, :, None]))
    else:
        qstd = 1.0 / np.sqrt(sum_e(ones(X) / (vq ** 2)[:, None, None]))
    res = X - q[:, None, None] - b[None, :, None]
    bstd = 1.0 / np.sqrt(sum_s(ones(X) / (v ** 2)[None, :, None]))
    v2 = (v ** 2)[None, :, None]
    curv = np.nansum(np.nansum(1.0 / v2 - 3 * res ** 2 / v2 ** 2, axis=2), axis=0)
    vstd = 1.0 / np.sqrt(np.maximum(0.0, -curv))
    if gauge:
        m = np.sum(b) / S
        q = q + m
        b = b - m
    n = votes_by_subject(X)
    total = np.sum(~np.isnan(cast))
    used = np.sum(~np.isnan(X))
    dev = X - q[:, None, None] - b[None, :, None]
    ll = np.nansum(-0.5 * np.log(2 * np.pi * v2) - dev ** 2 / (2 * v2)) / used
    ret = {
        'raw_scores': X,
        'quality_scores': q, 'quality_scores_std': qstd, 'quality_scores_ci95': [1.95996 * qstd, 1.95996 * qstd],
        'observer_bias': b, 'observer_bias_std': bstd, 'observer_bias_ci95': [1.95996 * bstd, 1.95996 * bstd],
        'observer_inconsistency': v, 'observer_inconsistency_std': vstd,
        'observer_inconsistency_ci95': inconsistency_ci(v, n),
        'observer_scores_mean': mean_s(X), 'observer_scores_std': np.sqrt(var_s(X, 0)),
        'reconstructions': np.zeros([E, S, R]) + q[:, None, None] + b[None, :, None],
        'num_iter': k,
    }
    criteria(ret, E + 2 * S * R, total, ll)
    return ret


def per_content(a_e, ds, C):
    """sum over the stimuli of each content"""
    out = np.zeros(C)
    for e, dv in enumerate(ds.dis_videos):
        out[dv['content_id']] += a_e[e]
    return out


def mle(X, ds, delta_thr, mode='full', gauge=True, dscore=False):
    """belief propagation for X = q_e + b_s + N(0, v_s) + N(0, a_c): damped Newton updates"""
    cast = X
    start = mean_e(X)
    if dscore:
        X = differential(X, ds)
    E, S, R = X.shape
    C = max([rv['content_id'] for rv in ds.ref_videos]) + 1
    subj = mode != 'no_subject'
    cont = mode != 'no_content'
    q = start
    res = X - q[:, None, None]
    b = np.zeros(S)
    v = np.sqrt(var_s(res, 0)) if subj else np.zeros(S)
    if cont:
        cnt = per_content(sum_e(ones(X)), ds, C)
        m1 = per_content(sum_e(res), ds, C) / cnt
        m2 = per_content(sum_e(res ** 2), ds, C) / cnt
        a = np.sqrt(m2 - m1 ** 2)
    else:
        a = np.zeros(C)
    k = 0
    while True:
        old = q
        ae = np.array([a[dv['content_id']] for dv in ds.dis_videos])
        tot = ((v ** 2)[None, :] + (ae ** 2)[:, None])[:, :, None]
        prec = ones(X) / tot
        # subject bias
        bprec = sum_s(prec)
        if subj:
            b = 0.9 * b + 0.1 * sum_s((X - q[:, None, None]) / tot) / bprec
        bstd = 1.0 / np.sqrt(bprec)
        # subject inconsistency
        d2 = (X - q[:, None, None] - b[None, :, None]) ** 2
        vv = v[None, :, None]
        g = sum_s(vv * d2 / tot ** 2 - vv / tot * ones(X))
        aa = (ae ** 2)[:, None, None]
        h = np.nansum(np.nansum((vv ** 2 - aa) / tot ** 2 + d2 * (aa ** 2 - 3 * vv ** 4 - 2 * vv ** 2 * aa) / tot ** 4, axis=2), axis=0)
        vstd = 1.0 / np.sqrt(np.maximum(0.0, -h))
        if subj:
            v = np.maximum(0.0, v - 0.1 * g / h)
        # content ambiguity
        tot = ((v ** 2)[None, :] + (ae ** 2)[:, None])[:, :, None]
        vv = (v ** 2)[None, :, None]
        g = per_content(sum_e(ae[:, None, None] * d2 / tot ** 2 - ae[:, None, None] / tot * ones(X)), ds, C)
        h = per_content(np.nansum(np.nansum((aa - vv) / tot ** 2 + d2 * (vv ** 2 - 3 * aa ** 2 - 2 * vv * aa) / tot ** 4, axis=2), axis=1), ds, C)
        astd = 1.0 / np.sqrt(np.maximum(0.0, -h))
        if cont:
            a = np.maximum(0.0, a - 0.1 * g / h)
        # quality
        ae = np.array([a[dv['content_id']] for dv in ds.dis_videos])
        tot = ((v ** 2)[None, :] + (ae ** 2)[:, None])[:, :, None]
        qprec = sum_e(ones(X) / tot)
        q = 0.9 * q + 0.1 * sum_e((X - b[None, :, None]) / tot) / qprec
        qstd = 1.0 / np.sqrt(qprec)
        k = k + 1
        if np.sqrt(np.sum((old - q) ** 2)) < delta_thr:
            break
        if k >= 10000:
            break
    if gauge:
        m = np.sum(b) / S
        q = q + m
        b = b - m
    total = np.sum(~np.isnan(cast))
    used = np.sum(~np.isnan(X))
    dev = X - q[:, None, None] - b[None, :, None]
    ll = np.nansum(-0.5 * np.log(2 * np.pi * tot) - dev ** 2 / (2 * tot)) / used
    ret = {
        'raw_scores': X,
        'quality_scores': q, 'quality_scores_std': qstd, 'quality_scores_ci95': [1.95996 * qstd, 1.95996 * qstd],
        'reconstructions': np.zeros([E, S, R]) + q[:, None, None] + b[None, :, None],
        'num_iter': k,
    }
    dof = E
    if subj:
        ret['observer_bias'] = b
        ret['observer_bias_std'] = bstd
        ret['observer_bias_ci95'] = [1.95996 * bstd, 1.95996 * bstd]
        ret['observer_inconsistency'] = v
        ret['observer_inconsistency_std'] = vstd
        ret['observer_inconsistency_ci95'] = inconsistency_ci(v, votes_by_subject(X))
        dof = dof + 2 * S * R
    if cont:
        ret['content_ambiguity'] = a
        ret['content_ambiguity_std'] = astd
        ret['content_ambiguity_ci95'] = [1.95996 * astd, 1.95996 * astd]
        dof = dof + C
    criteria(ret, dof, total, ll)
    return ret


def legacy(X, ds, gauge=True):
    """early estimator without content ambiguity, single votes"""
    E, S, R = X.shape
    q = mean_e(X)
    b = np.zeros(S)
    res = X - q[:, None, None]
    v = np.sqrt(var_s(res, 0))
    n = votes_by_subject(X)
    k = 0
    while True:
        old = q
        b = 0.9 * b + 0.1 * mean_s(X - q[:, None, None])
        d2 = (X - q[:, None, None] - b[None, :, None]) ** 2
        num = sum_s(2 * v[None, :, None] ** 3 * ones(X) - 4 * v[None, :, None] * d2)
        den = sum_s(v[None, :, None] ** 2 * ones(X) - 3 * d2)
        v = 0.9 * v + 0.1 * num / den
        w = ones(X) / (v ** 2)[None, :, None]
        q = 0.9 * q + 0.1 * sum_e(w * (X - b[None, :, None])) / sum_e(w)
        k = k + 1
        if np.sqrt(np.sum((old - q) ** 2)) < 1e-8:
            break
        if k >= 5000:
            break
    if gauge:
        m = np.sum(b) / S
        q = q + m
        b = b - m
    return {'quality_scores': q, 'observer_bias': b, 'observer_inconsistency': v}


def standalone(X):
    """what the standalone programs report for a table of votes (stimuli, subjects[, repetitions])"""
    if len(X.shape) == 2:
        X = X[:, :, None]
    r = projection(X, None, std='stimulus')
    return {'mos_j': r['quality_scores'], 'sos_j': r['quality_scores_std'], 'bias_i': r['observer_bias'], 'inconsistency_i': r['observer_inconsistency']}
