"""Executable specification.  Each function is used twice: parsed by the abstract interpreter (normal form) and evaluated under
random interpretations of its arguments.  It never calls the package."""
import numpy as np
from scipy.special import betaln, gammaln


def multivariate_betaln(alphas):
    s = 0.0
    t = 0.0
    for a in alphas:
        s = s + gammaln(np.asarray(a, dtype=float))
        t = t + np.asarray(a, dtype=float)
    return s - gammaln(t)


# ---------------------------------------------------------------- candidates
def cuts(values_sorted, precision):
    return 1 + np.where(np.abs(np.diff(values_sorted)) > precision)[0]


# ---------------------------------------------------------------- classification: Dirichlet
def clf_posterior(prior, y, weight):
    counts = np.sum(np.broadcast_to(y, (len(prior), len(y))) == np.arange(len(prior)).reshape(-1, 1), axis=1)
    return prior + weight * counts


def clf_no_split(p, level, prior, y):
    counts = np.sum(np.broadcast_to(y, (len(prior), len(y))) == np.arange(len(prior)).reshape(-1, 1), axis=1)
    return np.log(1 - p ** (1 + level)) + (multivariate_betaln(prior + counts) - multivariate_betaln(prior))


def clf_scores(p, level, prior, y_sorted, n_dim, splits):
    n_classes = len(prior)
    k1 = np.empty(n_classes, dtype=object)
    k2 = np.empty(n_classes, dtype=object)
    for i in range(n_classes):
        seen = (y_sorted == i).cumsum()
        k1[i] = seen[splits - 1]
        k2[i] = seen[-1] - k1[i]
    log_p_prior = np.log(p ** (1 + level) / (len(splits) * n_dim))
    b = multivariate_betaln(prior)
    return log_p_prior + (multivariate_betaln(prior + k1) - b) + (multivariate_betaln(prior + k2) - b)


def clf_default_prior(y):
    return max(1, len(y) // 100) * np.ones(len(np.unique(y)))


# ---------------------------------------------------------------- regression: Normal-gamma
def reg_posterior(prior, y, weight):
    mu, kappa, alpha, beta = prior
    n = len(y)
    s = y.sum()
    q = (y ** 2).sum()
    w = n * weight
    kappa_post = kappa + w
    return ((kappa * mu + w * s / n) / kappa_post, kappa_post, alpha + 0.5 * w,
            beta + 0.5 * weight * (q - s ** 2 / n) + 0.5 * kappa * w * (s / n - mu) ** 2 / (kappa + w))


def reg_log_ml(prior, n, s, q):
    mu, kappa, alpha, beta = prior
    kappa_post = kappa + n
    alpha_post = alpha + 0.5 * n
    beta_post = beta + 0.5 * (q - s ** 2 / n) + 0.5 * kappa * n * (s / n - mu) ** 2 / (kappa + n)
    return (gammaln(alpha_post) - gammaln(alpha) + alpha * np.log(beta) - alpha_post * np.log(beta_post)
            + 0.5 * np.log(kappa / kappa_post) - 0.5 * n * np.log(2 * np.pi))


def reg_no_split(p, level, prior, y):
    return np.log(1 - p ** (1 + level)) + reg_log_ml(prior, len(y), y.sum(), (y ** 2).sum())


def reg_scores(p, level, prior, y_sorted, n_dim, splits):
    n = len(y_sorted)
    n1 = np.arange(1, n)
    n2 = n - n1
    s1 = y_sorted.cumsum()[:-1]
    s2 = y_sorted.sum() - s1
    q1 = (y_sorted[:-1] ** 2).cumsum()
    q2 = (y_sorted ** 2).sum() - q1
    j = splits - 1
    log_p_prior = np.log(p ** (1 + level) / (len(splits) * n_dim))
    return log_p_prior + reg_log_ml(prior, n1[j], s1[j], q1[j]) + reg_log_ml(prior, n2[j], s2[j], q2[j])


def reg_default_prior(y):
    c = max(1, len(y) // 100)
    return np.array([0, c, c / 2, (c / 2) / 1])


def no_split(p, level, prior, y, regression):
    return reg_no_split(p, level, prior, y) if regression else clf_no_split(p, level, prior, y)


def scores(p, level, prior, y_sorted, n_dim, splits, regression):
    return reg_scores(p, level, prior, y_sorted, n_dim, splits) if regression else clf_scores(p, level, prior, y_sorted, n_dim, splits)


def posterior(prior, y, weight, regression):
    return reg_posterior(prior, y, weight) if regression else clf_posterior(prior, y, weight)


def child_prior(prior, y, delta, regression):
    return prior if delta == 0 else posterior(prior, y, delta, regression)


# ---------------------------------------------------------------- routing
def below(X, dim, value):
    return X[:, dim] < value


def behind(X, normal, origin):
    return X @ normal - np.dot(normal, origin) < 0


def below_rows(X, indices, dim, value):
    return X[indices, dim] < value


def behind_rows(X, indices, normal, origin):
    return X[indices] @ normal - np.dot(normal, origin) < 0


# ---------------------------------------------------------------- answers of a node
def proba(posterior):
    return posterior / np.sum(posterior)


def best_class(posterior):
    return np.argmax(posterior)


# ---------------------------------------------------------------- axis-parallel search
def sort_all(X):
    n_data = X.shape[0]
    dtype = np.uint16 if n_data < (1 << 16) else np.uint32 if n_data < (1 << 32) else np.uint64
    order = np.zeros((X.shape[1], X.shape[0]), dtype=dtype)
    for dim in range(X.shape[1]):
        order[dim] = np.argsort(X[:, dim])
    return order


def perp_transition(X, y, order, dim, best, index, best_dim, p, level, prior, precision, regression):
    splits = cuts(X[order, dim], precision)
    if len(splits) == 0:
        return best, index, best_dim
    s = scores(p, level, prior, y[order], X.shape[1], splits, regression)
    i = s.argmax()
    if s[i] > best:
        return s[i], splits[i], dim
    return best, index, best_dim


def split_value(value1, value2):
    v = 0.5 * value1 + 0.5 * value2
    if not value1 < v:
        return value2
    return v


def sub_order(order, rows, n_dim):
    return order[np.isin(order, rows)].reshape(n_dim, -1)


def train_further(n, y):
    return n > 1 and len(np.unique(y)) > 1


# ---------------------------------------------------------------- evaluation of one hyperplane direction
def hypercube_to_hypersphere_surface(point, half_hypersphere):
    raise NotImplementedError


def direction(u, hypercube):
    if hypercube:
        u = hypercube_to_hypersphere_surface(u, half_hypersphere=True)
    v = np.nan_to_num(u)
    if np.all(v == 0):
        v[0] = 1
    v /= np.linalg.norm(v)
    return v


def along(X, v):
    """points in the order of their projection, and the projections in that order"""
    projections = X @ v
    return projections, np.argsort(projections)


def objective(X, y, v, p, level, prior, no_split_score, precision, regression, best, distance, normal, origin):
    projections, order = along(X, v)
    splits = cuts(projections[order], precision)
    if len(splits) == 0:
        return -no_split_score, best, distance, normal, origin
    s = scores(p, level, prior, y[order], X.shape[1], splits, regression)
    i = s.argmax()
    if s[i] >= best:
        j = splits[i]
        p1 = X[order[j - 1]]
        p2 = X[order[j]]
        if not isinstance(X, np.ndarray):
            p1 = p1.toarray()[0]
            p2 = p2.toarray()[0]
        o = 0.5 * (p1 + p2)
        d = np.sum(np.abs(projections - np.dot(v, o)))
        if s[i] > best:
            better = True
        else:
            better = d > distance
        if better:
            best = s[i]
            distance = d
            normal = v
            origin = o
    return -s[i], best, distance, normal, origin
