"""Random interpretation of one training step: used only where a term deviates from the normal form of the specification."""
import numpy as np
import scipy.sparse as sp

from .fitmodel import UNSET, Outcome, Rec, table
from .graph import is_node
from .report import Skip, brief
from .spec import py
from .termeval import BadValue, CantEval, Eval, same, short

TOL = 1e-8


def close(a, b, tol=TOL):
    return same(a, b, tol)


class Scenario:
    """expected and actual outcome of a training step under one interpretation"""
    def __init__(self, chk, leaves):
        self.chk = chk
        self.o = Outcome(chk.m, leaves, ())
        o = self.o
        self.reg = not chk.clf
        self.n, self.d = len(o.rows), o.X.shape[1]
        lv = 0 if o.level is None else o.level
        self.nosplit = py.no_split(o.p, lv, o.prior, o.yn, self.reg)
        if chk.perp:
            self.order = np.asarray(o.leaves[chk.m.SI]) if chk.m.SI is not None else np.array([np.argsort(o.X[:, j], kind='stable') for j in range(self.d)])
            self.cands = []
            self.perdim = []
            for j in range(self.d):
                od = self.order[j]
                cs = py.cuts(o.X[od, j], o.prec)
                if len(cs) == 0:
                    self.perdim.append(None)
                    continue
                s = py.scores(o.p, lv, o.prior, o.y[od], self.d, cs, self.reg)
                self.perdim.append((cs, s))
                for c, x in zip(cs, s):
                    self.cands.append((float(x), j, int(c)))
            if not np.isfinite(self.nosplit) or any(not np.isfinite(x[0]) for x in self.cands):
                raise Skip()
            self.best = max([x[0] for x in self.cands], default=-np.inf)
            if abs(self.best - self.nosplit) < (1e-12 if id(leaves) in chk.near else 1e-7) * (1 + abs(self.nosplit)):
                raise Skip()                      # a tie up to rounding
            self.split = self.best > self.nosplit
        else:
            N, O = None, None
            for x in chk.search_attrs():
                if 'normal' in x.args[1]:
                    N = o.leaves.get(x)
                elif 'origin' in x.args[1]:
                    O = o.leaves.get(x)
            self.N, self.O = N, O
            self.split = N is not None
            if self.split:
                dist = o.X @ N - np.dot(N, O)
                self.mask = dist < 0
                exact = np.count_nonzero(N) == 1
                if np.min(np.abs(dist)) < 1e-9 and not exact:
                    raise Skip()
                self.edge = False
                self.split = bool(self.mask.any() and (~self.mask).any())

    def kid_rows(self, i):
        """expected rows (indices into X) of child i of an acceptable division matching the outcome, or None"""
        o = self.o
        if not self.chk.perp:
            return np.nonzero(self.mask if i == 1 else ~self.mask)[0]
        w = self.which()
        if w is None:
            return None
        od = self.order[w[1]]
        return od[:w[2]] if i == 1 else od[w[2]:]

    def which(self):
        """the candidate that the outcome's children correspond to"""
        if hasattr(self, '_w'):
            return self._w
        o, r = self.o, None
        if o.split:
            got = {i: self.actual_rows(i) for i in (1, 2)}
            dim = o.get('split_dimension_')
            for x, j, c in sorted(self.cands, reverse=True):
                if isinstance(dim, (int, np.integer)) and dim != j:
                    continue
                od = self.order[j]
                if any(got[i] is not None and len(got[i]) != m for i, m in ((1, c), (2, len(od) - c))):
                    continue
                if all(got[i] is None or got[i] == table(o.X[rows], o.y[rows]) for i, rows in ((1, od[:c]), (2, od[c:]))) and any(got.values()):
                    r = (x, j, c)
                    break
            else:
                if not any(got.values()):
                    # nothing is trained further: identify the division by the counts and the feature
                    for x, j, c in sorted(self.cands, reverse=True):
                        if isinstance(dim, (int, np.integer)) and dim == j and o.child(1, 'n_data_') == c and o.child(2, 'n_data_') == self.n - c:
                            r = (x, j, c)
                            break
        self._w = r
        return r

    def actual_rows(self, i):
        """rows child i is trained with by a recursive call (multiset of (row, target)), None if it is not trained further"""
        o = self.o
        t = o.child_rows(i)
        if t is None:
            return None
        X, y, si = t
        if si is not None:
            tabs = [table(*self._rows_of(i, si[j])) for j in range(si.shape[0])]
            if any(t != tabs[0] for t in tabs):
                return 'the rows of the order matrix list different rows'
            return tabs[0]
        if X.shape[0] != len(y):
            return 'lengths differ'
        return table(X, y)

    def _rows_of(self, i, idx):
        o = self.o
        e = o.rcall(i)
        X = o.ev(e.vals[o.m.roles['X']])
        y = np.asarray(o.ev(e.vals[o.m.roles['y']]))
        X = X.toarray() if sp.issparse(X) else np.asarray(X)
        return X[idx], y[idx]

    def at_training(self, i, a):
        """attribute of child i when its training starts, or when the step ends if it is not trained further"""
        o = self.o
        e = o.rcall(i)
        if e is None:
            return o.child(i, a)
        st = e.get('state')
        if st is None:
            raise CantEval('no state')
        v = st.heap.get((o.k[i], a))
        if v is None:
            return UNSET
        n = o.m.pick(o.m.I.deref(v, st), o.ev)
        return UNSET if n.op == 'undef' else o.ev(n)


def outlook(chk, leaves, **over):
    """(score of not splitting, {candidate: score}) by the specification"""
    c = chk.m.c
    get = lambda n: over[n] if n in over else leaves[c.params[n]] if c.params[n].op == 'param' else c.params[n].args[0]
    X = leaves[c.X]
    X = X.toarray() if sp.issparse(X) else np.asarray(X)
    y = np.asarray(leaves[c.y])
    SI = chk.m.SI
    order = np.asarray(leaves[SI]) if SI is not None else np.array([np.argsort(X[:, j], kind='stable') for j in range(X.shape[1])])
    yn = y[order[0]]
    pr = get('prior')
    reg = not chk.clf
    if pr is None:
        pr = py.reg_default_prior(yn) if reg else py.clf_default_prior(yn)
    lv = get('level') or 0
    out = {}
    for j in range(X.shape[1]):
        cs = py.cuts(X[order[j], j], get('split_precision') or 0.0)
        if len(cs):
            for k, s in zip(cs, py.scores(get('partition_prior'), lv, pr, y[order[j]], X.shape[1], cs, reg)):
                out[(j, int(k))] = float(s)
    return py.no_split(get('partition_prior'), lv, pr, yn, reg), out


def near_ties(chk, bases, consts, limit=14):
    """valuations in which the best candidate and not splitting, or the two best candidates, score almost the same: the prior weights are moved along a line until the scores differ by a given amount"""
    P = chk.m.c.params
    offs = [1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4, 1e-2, -1e-2]
    offs += [s * f * k for k in consts if 1e-11 < k <= 2 for f in (0.5,) for s in (1, -1)][:8]
    done = 0
    if P['partition_prior'].op == 'param':
        for b in bases:
            if done >= limit:
                break
            try:
                f = lambda t, o: (lambda r: max(r[1].values()) - r[0] - o)(outlook(chk, b, partition_prior=1 / (1 + np.exp(-t))))
                n0, cands = outlook(chk, b)
                if not cands or not np.isfinite(n0) or abs(n0) > 300:
                    continue
                for k, off in enumerate(offs):
                    lo, hi = -25.0, 8.0
                    if not (f(lo, off) < 0 < f(hi, off)):
                        break
                    for _ in range(60):
                        m = 0.5 * (lo + hi)
                        lo, hi = (m, hi) if f(m, off) < 0 else (lo, m)
                    v = dict(b)
                    v[P['partition_prior']] = float(1 / (1 + np.exp(-(hi if off > 0 else lo))))
                    yield v
                else:
                    done += 1
            except (KeyError, ValueError, TypeError, FloatingPointError, ZeroDivisionError):
                continue
    if P['prior'].op == 'param':
        done = 0
        r = np.random.default_rng(5)
        for b in bases:
            if done >= limit:
                break
            try:
                p0 = np.asarray(b[P['prior']], dtype=float)
                p1 = np.maximum(0.05, p0 * r.uniform(0.2, 4, size=len(p0)))
                at = lambda x: (1 - x) * p0 + x * p1
                top = lambda x: max(outlook(chk, b, prior=at(x))[1].items(), key=lambda kv: kv[1])[0]
                n0, cands = outlook(chk, b)
                if len(cands) < 2 or not np.isfinite(n0) or abs(n0) > 300:
                    continue
                a, z = top(0.0), top(1.0)
                gap = lambda x: (lambda c: c[z] - c[a])(outlook(chk, b, prior=at(x))[1])
                if a == z or not (gap(0.0) < 0 < gap(1.0)):
                    continue
                done += 1
                for off in offs:
                    lo, hi = 0.0, 1.0
                    for _ in range(60):
                        m = 0.5 * (lo + hi)
                        lo, hi = (m, hi) if gap(m) < off else (lo, m)
                    v = dict(b)
                    v[P['prior']] = at(hi)
                    if P['partition_prior'].op == 'param':
                        v[P['partition_prior']] = 0.999
                    yield v
            except (KeyError, ValueError, TypeError, FloatingPointError, ZeroDivisionError):
                continue


# each rule: scenario -> None (nothing to check) / True / text
def r_split(s):
    if s.o.split == s.split:
        return True
    if s.chk.perp:
        return 'the node is {}split although the best candidate scores {:.6g} and not splitting {:.6g}'.format('' if s.o.split else 'not ', s.best, s.nosplit)
    return 'the node is {}split although the hyperplane found {}'.format('' if s.o.split else 'not ', 'separates its rows' if s.split else 'does not separate its rows')


def r_candidate(s):
    """the division is one of the candidates"""
    if not (s.o.split and s.split) or not s.chk.perp:
        return None
    return True if s.which() is not None else 'the division of the rows is not one of the candidate splits'


def r_best(s):
    if not (s.o.split and s.split) or not s.chk.perp:
        return None
    w = s.which()
    if w is None:
        return None
    tol = 1e-12 if id(s.o.leaves) in s.chk.near else TOL
    return True if w[0] >= s.best - tol * (1 + abs(s.best)) else 'split with score {:.12g} although a candidate scores {:.12g}'.format(w[0], s.best)


def r_nosplit_score(s):
    if not s.o.split:
        return None
    v = s.o.get('log_p_data_no_split_')
    if v is UNSET or isinstance(v, Rec):
        return None
    return True if close(v, s.nosplit) else 'reported no-split score {} instead of {}'.format(short(v), short(s.nosplit))


def r_split_score(s):
    if not s.o.split:
        return None
    v = s.o.get('best_log_p_data_split_')
    if v is UNSET or isinstance(v, Rec):
        return None
    if s.chk.perp:
        w = s.which()
        if w is None:
            return None
        return True if close(v, w[0]) else 'reported split score {} instead of {}'.format(short(v), short(w[0]))
    for x in s.chk.search_attrs():
        if 'log_p' in x.args[1] and 'no_split' not in x.args[1] and x in s.o.leaves:
            return True if close(v, s.o.leaves[x]) else 'reported split score {} instead of that of the search result {}'.format(short(v), short(s.o.leaves[x]))
    return None


def r_dimension(s):
    if not (s.o.split and s.split) or not s.chk.perp:
        return None
    w = s.which()
    d = s.o.get('split_dimension_')
    if w is None or not isinstance(d, (int, np.integer)):
        return None
    return True if d == w[1] else 'the recorded feature is {} but the rows are divided by feature {}'.format(d, w[1])


def r_rows(s):
    """children get complementary, non-empty, complete sets of rows"""
    if not s.o.split:
        return None
    o = s.o
    if not is_node(o.k[1]) or not is_node(o.k[2]):
        return 'only one child'
    allrows = table(o.X[o.rows], o.y[o.rows])
    got = {i: s.actual_rows(i) for i in (1, 2)}
    for i in (1, 2):
        if isinstance(got[i], str):
            return 'child {}: {}'.format(i, got[i])
        if got[i] is not None and not got[i]:
            return 'child {} is trained with no rows'.format(i)
    if got[1] is not None and got[2] is not None:
        if sorted(got[1] + got[2]) != allrows:
            return 'the rows of the children are not the rows of the node'
    elif s.split:
        for i in (1, 2):
            if got[i] is not None:
                rows = s.kid_rows(i)
                if rows is not None and got[i] != table(o.X[rows], o.y[rows]):
                    return 'child {} is trained with other rows than its side of the split'.format(i)
    for i in (1, 2):
        if got[i] is not None and s.chk.perp:
            si = o.child_rows(i)[2]
            if si is not None:
                if si.shape[0] != s.d:
                    return 'order matrix of child {} has {} rows for {} features'.format(i, si.shape[0], s.d)
                for j in range(si.shape[0]):
                    v = s._rows_of(i, si[j])[0][:, j]
                    if np.any(np.diff(v) < 0):
                        return 'rows of child {} are not in ascending order of feature {}'.format(i, j)
                    if len(set(si[j].tolist())) != len(si[j]):
                        return 'order matrix of child {} repeats rows'.format(i)
    return True


def r_separates(s):
    """what prediction would do with the training rows"""
    if not (s.o.split and s.split):
        return None
    o = s.o
    if s.chk.perp:
        v, d = o.get('split_value_'), o.get('split_dimension_')
        if v in (UNSET,) or isinstance(v, Rec) or v is None or not isinstance(d, (int, np.integer)):
            return None
        below = o.X[o.rows, d] < v
        rows = {1: o.rows[below], 2: o.rows[~below]}
    else:
        if s.edge:
            return None
        N, O = o.get('best_hyperplane_normal_'), o.get('best_hyperplane_origin_')
        if N is UNSET or O is UNSET or N is None or O is None:
            return None
        m = o.X @ N - np.dot(N, O) < 0
        rows = {1: np.nonzero(m)[0], 2: np.nonzero(~m)[0]}
    for i in (1, 2):
        g = s.actual_rows(i)
        if isinstance(g, str):
            return 'child {}: {}'.format(i, g)
        if g is not None:
            if g != table(o.X[rows[i]], o.y[rows[i]]):
                return 'prediction sends {} training rows to child {}, which is trained with {} rows or with other ones'.format(len(rows[i]), i, len(g))
        else:
            nd = o.child(i, 'n_data_')
            if isinstance(nd, (int, np.integer)) and nd != len(rows[i]):
                return 'prediction sends {} training rows to leaf {}, which holds {}'.format(len(rows[i]), i, nd)
    return True


def r_further(s):
    """a child is trained further iff it has more than one row and more than one distinct target"""
    if not (s.o.split and s.split):
        return None
    o = s.o
    for i in (1, 2):
        rows = s.kid_rows(i)
        if rows is None:
            return None
        want = py.train_further(len(rows), o.y[rows])
        if (o.rcall(i) is not None) != want:
            return 'child {} with {} rows and {} distinct targets is {}considered for splitting'.format(i, len(rows), len(set(o.y[rows])), '' if o.rcall(i) is not None else 'not ')
    return True


def r_child_prior(s):
    if not (s.o.split and s.split):
        return None
    o = s.o
    for i in (1, 2):
        rows = s.kid_rows(i)
        if rows is None:
            return None
        want = py.child_prior(o.prior, o.y[rows], o.delta, s.reg)
        for a in ('prior', 'prior_'):
            v = s.at_training(i, a)
            if v is UNSET or v is None and a == 'prior_':
                continue
            if v is None or not close(np.asarray(v, dtype=float), np.asarray(want, dtype=float)):
                return 'child {} starts from {} = {} instead of {}'.format(i, a, short(v), short(np.asarray(want, dtype=float)))
    return True


def r_posterior(s):
    o = s.o
    v = o.get('posterior_')
    if v is UNSET or isinstance(v, Rec) or v is None:
        return None if v is not None else 'the posterior is None'
    want = py.posterior(o.prior, o.yn, 1, s.reg)
    return True if close(np.asarray(v, dtype=float), np.asarray(want, dtype=float)) else 'posterior {} instead of {}'.format(short(v), short(want))


def r_leaf_posterior(s):
    """posterior and row count of children that are not trained further"""
    if not (s.o.split and s.split):
        return None
    o = s.o
    seen = None
    for i in (1, 2):
        rows = s.kid_rows(i)
        if rows is None or o.rcall(i) is not None:
            continue
        v = o.child(i, 'posterior_')
        pr = s.at_training(i, 'prior_')
        if pr is UNSET or pr is None:
            pr = s.at_training(i, 'prior')
        if v is UNSET or v is None or isinstance(v, Rec) or pr is UNSET or pr is None:
            continue
        want = py.posterior(pr, o.y[rows], 1, s.reg)
        seen = True
        if not close(np.asarray(v, dtype=float), np.asarray(want, dtype=float)):
            return 'posterior of leaf {} is {} instead of {}'.format(i, short(v), short(want))
        nd = o.child(i, 'n_data_')
        if isinstance(nd, (int, np.integer)) and nd != len(rows):
            return 'leaf {} records {} rows instead of {}'.format(i, nd, len(rows))
    return seen


def r_counts(s):
    nd, dm = s.o.get('n_data_'), s.o.get('n_dim_')
    if isinstance(nd, (int, np.integer)) and nd != s.n:
        return 'the node records {} rows instead of {}'.format(nd, s.n)
    if isinstance(dm, (int, np.integer)) and dm != s.d:
        return 'the node records {} features instead of {}'.format(dm, s.d)
    return True


def r_settings(s):
    if not s.o.split:
        return None
    o = s.o
    for i in (1, 2):
        t = o.m.I.type_of(o.k[i])
        if t is not None and t is not o.m.cls:
            return 'child {} is a {}'.format(i, t.name)
        for a, node in s.chk.settings().items():
            v = s.at_training(i, a)
            if v is UNSET:
                return 'child {} has no {}'.format(i, a)
            want = o.ev(node)
            same_ = v is want or (not isinstance(want, np.ndarray) and not isinstance(v, np.ndarray) and type(v) is type(want) and v == want) or \
                (isinstance(want, (int, float, np.number)) and isinstance(v, (int, float, np.number)) and v == want)
            if not same_:
                return '{} of child {} is {} instead of {}'.format(a, i, short(v), short(want))
    return True


def r_name(s):
    if not (s.o.split and s.chk.perp):
        return None
    o = s.o
    nm, d = o.get('split_feature_name_'), o.get('split_dimension_')
    if nm is UNSET or not isinstance(d, (int, np.integer)) or d < 0:
        return None
    names = o.leaves[o.m.c.names]
    return True if nm == names[d] else 'split on feature {} is labelled {}'.format(d, short(nm))


def r_prior_in_force(s):
    v = s.o.get('prior_')
    if v is UNSET or v is None:
        return None
    return True if close(np.asarray(v, dtype=float), np.asarray(s.o.prior, dtype=float)) else 'prior in force {} instead of {}'.format(short(v), short(s.o.prior))


def r_erased(s):
    """an unsplit node has no children"""
    if s.o.split:
        return None
    for i in (1, 2):
        if s.o.k[i] is not None and s.o.k[i] is not UNSET:
            return 'child{} of an unsplit node is {}'.format(i, short(s.o.k[i]))
    return True


def r_scanned(s):
    """a better candidate on a feature other than the chosen one is not overlooked"""
    if not s.split:
        return None
    if not s.o.split:
        return 'not split although feature {} has a candidate that beats not splitting'.format(max(s.cands)[1])
    w = s.which()
    if w is None:
        return None
    own = max(x[0] for x in s.cands if x[1] == w[1])
    if w[0] >= own - TOL * (1 + abs(own)) and w[0] < s.best - TOL * (1 + abs(s.best)):
        return 'split on feature {} although feature {} has a better candidate'.format(w[1], max(s.cands)[1])
    return True


# property -> [(rule, obligations of the congruence proof that make the rule superfluous)]
RULES = {
    'C03': [('children get complementary, complete, non-empty sets of rows', r_rows, ['rows of child 1', 'rows of child 2', 'search']),
            ('prediction sends the training rows to the child trained with them', r_separates, ['rows of child 1', 'rows of child 2', 'division', 'search'])],
    'C04': [('the division is a candidate split', r_candidate, ['search', 'rows of child 1', 'rows of child 2'])],
    'C05': [('split iff the best candidate beats not splitting', r_split, ['search', 'split iff improved', 'no-split score']),
            ('split at a best candidate', r_best, ['search', 'split iff improved', 'rows of child 1', 'rows of child 2']),
            ('recorded feature', r_dimension, ['search', 'split iff improved', 'rows of child 1', 'rows of child 2']),
            ('reported score of the split', r_split_score, ['reported scores']),
            ('reported score of not splitting', r_nosplit_score, ['no-split score']),
            ('children with several distinct targets are considered', r_further, ['training of child 1', 'training of child 2'])],
    'C06': [('reported score of the split', r_split_score, ['reported scores']),
            ('reported score of not splitting', r_nosplit_score, ['no-split score'])],
    'C07': [('posterior', r_posterior, ['posterior']),
            ('posterior of leaves', r_leaf_posterior, ['leaf child 1', 'leaf child 2', 'prior of child 1', 'prior of child 2']),
            ('counts', r_counts, ['counts'])],
    'C08': [('prior of the children', r_child_prior, ['prior of child 1', 'prior of child 2']),
            ('prior in force', r_prior_in_force, ['prior in force'])],
    'C09': [('settings of the children', r_settings, ['settings of child 1', 'settings of child 2'])],
    'C24': [('label of the split feature', r_name, ['feature name'])],
    'C13': [('an unsplit node has no children', r_erased, ['erased if not split'])],
}
