"""Reference definitions of the estimators, over an arbitrary E x S x R array of votes in which
nan marks a vote that was not cast.  Each function states a published formula as directly as
possible; they are analysed by the same engine as the repository and never executed."""
import numpy as np
from scipy import stats
from scipy.stats import chi2


# ----------------------------------------------------------------- elementary statistics

def votes(X):
    """number of votes cast per stimulus"""
    return np.sum(np.sum(~np.isnan(X), axis=2), axis=1)


def votes_by_subject(X):
    return np.sum(np.sum(~np.isnan(X), axis=2), axis=0)


def mean_e(X):
    return np.nansum(np.nansum(X, axis=2), axis=1) / votes(X)


def mean_s(X):
    return np.nansum(np.nansum(X, axis=2), axis=0) / votes_by_subject(X)


def var_e(X, ddof):
    d = X - mean_e(X)[:, None, None]
    return np.nansum(np.nansum(d * d, axis=2), axis=1) / (votes(X) - ddof)


def var_s(X, ddof):
    d = X - mean_s(X)[None, :, None]
    return np.nansum(np.nansum(d * d, axis=2), axis=0) / (votes_by_subject(X) - ddof)


# ----------------------------------------------------------------- preprocessing

def reference_mean(ds, q):
    """mean opinion score of the reference of each stimulus"""
    out = []
    for dv in ds.dis_videos:
        tot = 0.0
        for i, other in enumerate(ds.dis_videos):
            if other['content_id'] == dv['content_id']:
                for rv in ds.ref_videos:
                    if rv['content_id'] == other['content_id'] and rv['path'] == other['path']:
                        tot = tot + q[i]
        out.append(tot)
    return np.array(out)


def differential(X, ds):
    return X + ds.ref_score - reference_mean(ds, mean_e(X))[:, None, None]


def zscored(X):
    return (X - mean_s(X)[None, :, None]) / np.sqrt(var_s(X, 1))[None, :, None]


def bias(X):
    return mean_s(X - mean_e(X)[:, None, None])


def unbiased(X):
    return X - bias(X)[None, :, None]


def bt500_counts(X):
    mu = mean_e(X)[:, None, None]
    n = votes(X)
    d = X - mu
    m2 = np.nansum(np.nansum(d ** 2, axis=2), axis=1) / n
    m4 = np.nansum(np.nansum(d ** 4, axis=2), axis=1) / n
    kurt = m4 / m2 ** 2
    normal = (kurt >= 2) & (kurt <= 4)
    k = np.where(normal, 2.0, np.sqrt(20.0))[:, None, None]
    sd = np.sqrt(m2)[:, None, None]
    above = d >= k * sd
    below = -d >= k * sd
    P = np.sum(np.sum(above, axis=2), axis=0)
    Q = np.sum(np.sum(below, axis=2), axis=0)
    return P, Q


def bt500(X):
    E, S, R = X.shape
    P, Q = bt500_counts(X)
    first = (P + Q) / (E * R)
    second = np.abs(P - Q) / (P + Q)
    bad = (first > 0.05) & (second < 0.3)
    rejected = bad & (np.sum(bad) < S)
    return rejected, first, second


def correlation(X, kind):
    m = np.nanmean(X, axis=2)
    q = np.nanmean(m, axis=1)
    E, S = m.shape
    r = np.zeros(S)
    for s in range(S):
        ok = ~np.isnan(m[:, s])
        if kind == 'pearson':
            r[s] = stats.pearsonr(m[:, s][ok], q[ok])[0]
        else:
            r[s] = stats.spearmanr(m[:, s][ok], q[ok])[0]
    mean = np.sum(r) / S
    sd = np.sqrt(np.sum((r - mean) ** 2) / S)
    thr = np.minimum(0.7, mean - sd)
    return r <= thr, r, np.zeros(S)


# ----------------------------------------------------------------- MOS family

def describe(Y, X, dof):
    """statistics reported for votes Y obtained from the cast votes X"""
    E, S, R = Y.shape
    n = votes(Y)
    q = mean_e(Y)
    v = var_e(Y, 1)
    sd = np.sqrt(v)
    se = sd / np.sqrt(n)
    total = np.sum(~np.isnan(X))
    used = np.sum(~np.isnan(Y))
    k = dof / total
    dev = Y - q[:, None, None]
    ll = np.nansum(-0.5 * np.log(2 * np.pi * v)[:, None, None] - dev ** 2 / (2 * v)[:, None, None]) / used
    return {
        'quality_scores': q,
        'quality_ambiguity': sd,
        'quality_scores_std': se,
        'quality_scores_ci95': [1.95996 * se, 1.95996 * se],
        'raw_scores': Y,
        'reconstructions': np.zeros([E, S, R]) + q[:, None, None],
        'dof': k,
        'loglikelihood': ll,
        'aic': 2 * k - 2 * ll,
        'bic': np.log(total) * k - 2 * ll,
    }


def model(X, ds, dscore=False, zscore=False, debias=False, reject=None):
    """MOS of the votes after the advertised preprocessing, in this order"""
    E, S, R = X.shape
    Y = X
    if dscore:
        Y = differential(Y, ds)
    if zscore:
        Y = zscored(Y)
    dof = 2 * E
    ret = {}
    if debias:
        ret['observer_bias'] = bias(Y)
        Y = unbiased(Y)
        dof = 2 * E + S * R
    if reject is not None:
        if reject == 'kurtosis':
            rej, a, b = bt500(Y)
        else:
            rej, a, b = correlation(Y, reject)
        ret['observer_rejected'] = rej
        ret['observer_rejected_1st_stats'] = a
        ret['observer_rejected_2nd_stats'] = b
        Y = Y[:, ~rej, :]
    ret.update(describe(Y, X, dof))
    return ret


def live_dmos(X, ds):
    return {'quality_scores': mean_e((zscored(differential(X, ds)) + 3.0) * 100.0 / 6.0)}


def per_subject(X, ds):
    return {'quality_scores': X}


def least_squares(X, ds):
    """additive model q_e + b_s fitted to complete single votes, anchored at the first MOS"""
    q = mean_e(X)
    return {'quality_scores': q, 'observer_bias': mean_s(X - q[:, None, None])}


def ps_dscore(X, ds):
    return {'quality_scores': differential(X, ds)}


def ps_zscore(X, ds):
    return {'quality_scores': zscored(X)}
