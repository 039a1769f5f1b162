"""Random interpretations of the leaves of value-graph terms."""
import random

import numpy as np
import scipy.sparse as sp

from .graph import is_node


def matrix(kind, a):
    a = np.array(a, dtype=float)
    if kind == 'csr':
        return sp.csr_matrix(a)
    if kind == 'csc':
        return sp.csc_matrix(a)
    return a


EDGE = [0.0, 5e-324, 1e-323, 1.0, np.nextafter(1.0, 2.0), 3.0, np.nextafter(3.0, 4.0), -1e308, 1.7e308, 1.6e308, -1.7e308]


def data(r, n, d, clf, K=2, style=0):
    """X (dense), y"""
    if style == 0:
        X = np.round(r.normal(size=(n, d)), 2)
    elif style == 1:
        X = r.integers(-2, 3, size=(n, d)).astype(float)
    elif style == 2:
        X = r.normal(size=(n, d))
    elif style == 3:
        X = np.where(r.random((n, d)) < 0.5, 0.0, np.round(r.normal(size=(n, d)), 1))
    elif style == 6:
        X = r.choice(EDGE, size=(n, d))
        X[:, 0] = r.choice([1.0, np.nextafter(1.0, 2.0)], size=n)
    else:
        X = np.repeat(np.round(r.normal(size=(1, d)), 1), n, axis=0)
        if style == 5 and n > 1:
            X[:, -1] = np.round(r.normal(size=n), 1)
    if clf:
        # class mostly follows a feature so that splits do happen
        base = X[:, r.integers(0, d)] + r.normal(size=n) * (0 if style == 6 else 0.05)
        if style == 6:
            base = X[:, 0] if r.random() < 0.5 else base
        q = np.argsort(np.argsort(base)) * K // max(n, 1)
        y = q.astype(float)
        if n >= K:
            flips = r.random(n) < 0.15
            y2 = np.where(flips, r.integers(0, K, size=n), y).astype(float)
            if len(set(y2)) == K:
                y = y2
    else:
        y = np.round((X[:, r.integers(0, d)] > 0) * 2.0 + r.normal(size=n) * 0.3, 3)
    return X, y


def prior(r, clf, K):
    if clf:
        return np.round(r.uniform(0.2, 3, size=K), 2)
    return np.array([round(r.normal(), 2), round(r.uniform(0.1, 2), 2), round(r.uniform(0.2, 2), 2), round(r.uniform(0.05, 2), 2)])


def fit_base(c, clf, seed=1, count=40, sizes=(), min_dim=1, edge=False, consts=()):
    """leaf valuations for a fit context c (X, y, constructor parameters)"""
    r = np.random.default_rng(seed)
    out = []
    plan = []
    for i in range(count):
        K = 2 if i % 3 else 3
        n = int(r.integers(1, 9)) if i % 5 == 0 else int(r.integers(4, 15))
        plan.append((n, int(r.integers(min_dim, min_dim + 3)), K, i % 6 if i % 12 or edge is False else 6, i))
    for k in range(8):
        plan.append((18 + 3 * k, min_dim + k % 2, 2 + k % 2, (1, 2, 0, 3)[k % 4], len(plan)))
    for n in sizes:
        plan.append((n, min_dim, 2, 2, len(plan)))
        plan.append((n, min_dim, 2, 1, len(plan)))
    plan = [p + ({},) for p in plan]
    if not clf:
        for k in range(10):
            plan.append((6 + k, min_dim + k % 2, 2, (2, 0, 1)[k % 3], len(plan), dict(block=('zero low', 'zero high', 'same low', 'same high', 'zero')[k % 5], i=(2, 4, 9, 12, 18)[k // 2])))
        for k in range(8):
            plan.append((8 + k, min_dim + k % 2, 2, (2, 0)[k % 2], len(plan), dict(block=('near low', 'near', 'tiny', 'tiny high')[k % 4], i=(12, 18)[k // 4])))
    plan += directed(consts, clf, min_dim, len(plan))
    for n, d, K, style, i, over in plan:
        if clf:
            n = max(n, K)
        X, y = data(r, n, d, clf, K, style)
        if over:
            X, y = special(r, X, y, clf, K, over)
            if 'i' in over:
                i = over['i']
        if not clf and i % 7 == 6:
            y = y * 50 + 300
        if i % 11 == 10 and style != 6:
            X = X * 1e3
        prec = [0.0, 0.0, 0.05, 0.5][i % 4]
        if style == 1:
            prec = (1.0, 0.0, 1.0, 0.5)[i % 4] if i < count else (0.5, 0.0, 0.05)[i % 3]      # 1.0: distances equal to the precision
        if style == 6:
            prec = 0.0
        v = {}
        kind = c.kind
        v[c.X] = matrix(kind, X)
        v[c.y] = y
        ps = c.params
        def put(name, val):
            if name in ps and ps[name].op == 'param':
                v[ps[name]] = val
        put('partition_prior', [0.9, 0.5, 0.99, 0.2][(i // 2) % 4])
        put('prior', prior(r, clf, K))
        put('delta', [0.0, 0.5, 1.0, 0.0, 0.25][i % 5])
        put('split_precision', prec)
        put('level', [0, 0, 1, 3][(i // 3) % 4])
        put('prune', bool(i % 2))
        for name, val in over.get('params', {}).items():
            put(name, val)
        if 'prior*' in over:
            put('prior', prior(r, clf, K) * over['prior*'])
        put('optimizer', 'an optimizer')
        v[c.names] = ['feature {}'.format(j) for j in range(d)]
        if getattr(c, 'verbose', None) is not None and c.verbose.op == 'param':
            v[c.verbose] = bool(i % 2)
        extra = getattr(c, 'extra_leaves', None)
        if extra is not None:
            extra(v, r, X, y, i)
        out.append(v)
    return out


COMMON = {0, 1, -1, 2, -2, 0.5}
CAP = {'int8': 1 << 7, 'uint8': 1 << 8, 'int16': 1 << 15, 'uint16': 1 << 16, 'float16': 1 << 11, 'float32': 1 << 24}


def constants(g, nodes):
    """all numbers in the terms (and capacities of the element types in them)"""
    out = set()
    seen = set()
    for n in nodes:
        for x in g.walk(n, seen):
            if x.op in ('call', 'mcall', 'round') and 'round' in (x.args[0] if isinstance(x.args[0], str) else x.op):
                # rounding to decimals: magnitudes below the last one
                for a in x.args:
                    if is_node(a) and a.op == 'const' and isinstance(a.args[0], int) and 0 < a.args[0] < 18:
                        out.add(10.0 ** -a.args[0])
            if x.op == 'const':
                k = x.args[0]
                if isinstance(k, str):
                    k = CAP.get(k)
                if isinstance(k, bool) or not isinstance(k, (int, float)) or k != k or k in COMMON:
                    continue
                if abs(k) < 1e15:
                    out.add(abs(k))
    return sorted(out)


def directed(consts, clf, min_dim, i0):
    """valuations at and around numbers that the terms contain: sizes, numbers of features and classes, levels, parameters, magnitudes of the data and of the scores"""
    out = []
    i = i0

    def add(n, d, K, style, **over):
        nonlocal i
        i += 1
        over.setdefault('i', (2, 4, 7, 9, 1)[len(out) % 5])
        out.append((int(n), max(int(d), min_dim), int(K), style, i, over))
    ints = [int(k) for k in consts if k == int(k) and k >= 2]
    for k in ints:
        if k <= 3000:
            for L in (k - 1, k, k + 1, 2 * k):
                add(12, min_dim, 2, 2, params=dict(level=L, partition_prior=0.99 if L < 100 else 0.9999))
                add(9, min_dim + 1, 2, 1, params=dict(level=L, partition_prior=0.9 if L < 30 else 0.999, delta=0.5))
    for k in ints:
        if 3 <= k <= 300000:
            for n in ((k - 1, k, k + 1) if k < 5000 else (k + 1, k - 1) if k < 70000 else (k + 1,)):
                if k < 5000:
                    add(n, min_dim, 2, 2)
                    add(n, min_dim, 2, 1, params=dict(delta=0.5))
                elif k < 70000:
                    add(n, min_dim, 2, 1, params=dict(delta=0.5, split_precision=0.0), strong=0.02)
                else:
                    add(n, min_dim, 2, 2)
            if k <= 150000:
                add(2 * k + 1, min_dim, 2, 2, params=dict(delta=0.5))
                add((k // max(min_dim, 1)) + 2, max(min_dim, 2), 3, 2)
    for k in ints:
        if 3 <= k <= 700:
            for d in (k, k + 1, 2 * k) if k <= 300 else (k + 1,):
                add(10, d, 2, 2)
                add(14, d, 2, 2, last=True)
    if clf:
        for k in ints:
            if 3 <= k <= 64:
                for K in (k, k + 1):
                    add(4 * K, min_dim, K, 2)
                    add(3 * K, min_dim + 1, K, 1, params=dict(delta=0.5))
                    for k2 in ints:
                        if k2 != k and k2 <= 70000:
                            add(k2 + 2 * K, min_dim, K, 2)
                            add(K * (k2 + 1), min_dim, K, 2)
    for k in consts:
        if 0 < k < 1:
            for f in (0.9, 1.0, 1.1):
                add(12, min_dim, 2, 2, params=dict(delta=min(1.0, k * f)))
                add(12, min_dim, 2, 2, params=dict(partition_prior=min(0.999, k * f)))
        if 0 < k:
            for f in (0.5, 1.0, 1.5):
                add(12, min_dim + 1, 2, 2, params=dict(split_precision=k * f), xscale=4 * k)
        if k > 2 or k < 0.1:
            add(12, min_dim + 1, 2, 2, xscale=k, params=dict(split_precision=0.0))
            add(12, min_dim + 1, 2, 2, xscale=k, xshift=k, params=dict(split_precision=0.0))
            if k < 0.1:
                add(12, min_dim, 2, 2, xscale=k * 4, params=dict(split_precision=0.0))
                add(12, min_dim, 2, 2, xscale=k / 4, params=dict(split_precision=0.0))
            add(12, min_dim, 2, 2, **{'prior*': k})
            if not clf:
                add(12, min_dim, 2, 2, yscale=k)
                add(12, min_dim, 2, 2, yshift=k)
        if 5 <= k <= 20000:
            for noise in (0.02, 0.1):
                for m in (4, 12):
                    if m * k < 70000:
                        add(m * k, min_dim + 1, 2, 2, strong=noise)
    return out


def special(r, X, y, clf, K, over):
    n, d = X.shape
    if 'strong' in over:
        # the target is a noisy function of every feature, the last one is the cleanest
        t = np.sort(r.normal(size=n))
        y = np.where(np.arange(n) * K // n > 0, 1.0, 0.0)
        if K > 2:
            y = (np.arange(n) * K // n).astype(float)
        for j in range(d):
            flip = r.random(n) < over['strong'] * (d - 1 - j)
            X[:, j] = np.where(flip, r.permutation(t), t)
        if not clf:
            y = y * 3 + r.normal(size=n) * 0.01
        p = r.permutation(n)
        X, y = X[p], y[p]
    if over.get('last') and n > 1:
        # only the last feature tells the target
        y = (np.argsort(np.argsort(X[:, -1])) * K // n).astype(float)
        if not clf:
            y = y * 3 + np.round(r.normal(size=n) * 0.1, 3)
    if 'block' in over and n > 2:
        # targets that are exactly zero or all the same on one side of a feature
        o = np.argsort(X[:, 0], kind='stable')
        rows = o[:n // 2] if 'low' in over['block'] else o[n // 2:] if 'high' in over['block'] else o
        y = y + 9.0
        y[rows] = 0.0 if 'zero' in over['block'] else 4.5
        if 'near' in over['block']:
            # targets that differ, but only a little
            y[rows] *= 1 + 1e-9 * (np.arange(len(rows)) % 2)
        if 'tiny' in over['block']:
            y[rows] = 1e-9 * (np.arange(len(rows)) % 2)
    if 'xscale' in over:
        X = X * over['xscale']
    if 'xshift' in over:
        X = X + over['xshift']
    if 'yscale' in over:
        y = y * over['yscale']
    if 'yshift' in over:
        y = y + over['yshift']
    return X, y


def int_constants(g, nodes, lo=16, hi=70000):
    """integer constants that terms compare with or divide by: sizes worth trying"""
    out = set()
    seen = set()
    for n in nodes:
        for x in g.walk(n, seen):
            if x.op in ('lt', 'le', 'eq', 'floordiv', 'mod'):
                for a in x.args:
                    if is_node(a) and a.op == 'const' and isinstance(a.args[0], (int, float)) and not isinstance(a.args[0], bool):
                        k = a.args[0]
                        if k == int(k) and lo <= k <= hi if abs(k) < 1e12 else False:
                            out.add(int(k))
    return sorted(out)
