"""Rules about queries on fitted trees: routing, paths, probabilities, importances, structure queries, pruning, purity."""
import re
import time

import numpy as np

from . import alias
from .contexts import TREES, family, is_clf
from .graph import is_node
from .loader import Func
from .nodestate import Attr
from .qsim import Cell, N, Raised, Sim, TreeGen, walk
from .registry import contexts, guarded, rule
from .spec import Spec, py
from .termeval import BadValue, CantEval, same, short

MATRIX = ('predict', 'predict_proba', '_get_raw_leaf_data', 'prediction_paths')
PLAIN = ('feature_importance', 'get_depth', 'get_n_leaves', '__str__', '__repr__', 'is_fitted')


def methods(C, t, names):
    cls = C.P.cls(t)
    return [m for m in names if isinstance(cls.find(m)[0], Func)]


def rng(i=0):
    return np.random.default_rng(1000 + i)


def seed(tier):
    import os
    return int(os.environ.get('VERIF_SEED', '1'))


def trees(C, t, n, tier, depth=3, classes=(2, 3), sub=0):
    """random trees of nodes in states that a fit can produce"""
    ns = C.states(t)
    G = TreeGen(C, t, family(t), is_clf(t), ns)
    r = np.random.default_rng(7 * seed(tier) + 100 + sub)
    out = []
    for i in range(n):
        dims = int(r.integers(1 if family(t) == 'perp' else 2, 4))
        out.append((G.random(r, i % (depth + 1), dims, classes[i % len(classes)]), dims, r))
    return out


def directed(C, t, consts, seed=3):
    """trees and batches at and around the numbers in the summaries: [(tree, dims, rows or None)]"""
    G = TreeGen(C, t, family(t), is_clf(t), C.states(t))
    r = np.random.default_rng(900 + seed)
    lo = 1 if family(t) == 'perp' else 2
    out = []

    def add(depth=2, dims=None, K=2, n=None, scale=None, data=None, **kw):
        tr = G.random(r, depth, max(lo, dims or lo + 1), K, **kw)
        if data:
            G.populate(r, tr, K, **data)
        for x in walk(tr):
            for at in (x.attrs, x.full or {}):
                for a, f in (scale or {}).items():
                    if at.get(a) is not None:
                        at[a] = f(at[a])
        out.append((tr, max(lo, dims or lo + 1), n))
    ints = [int(k) for k in consts if k == int(k) and k >= 2]
    for k in ints:
        if k <= 3000:
            for L in (k - 1, k, k + 1):
                add(level=L)
                add(level=max(0, L - 1), depth=3)
        if k <= 100:
            for d in (k - 1, k, k + 1, k + 3):
                add(depth=d, chain=True, n=4)
                add(depth=d, chain=True, n=4, dims=3)
        if 3 <= k <= 700:
            for d in (k, k + 1):
                add(dims=d)
                add(dims=d, depth=3)
        if is_clf(t) and 3 <= k <= 700:
            for K in (k, k + 1, 2 * k):
                add(K=K)
        if k <= 100:
            for d in (k, k + 2):
                # many nodes
                m = min(int(np.ceil(np.log2(d + 2))) + 2, 7)
                add(depth=m)
                add(depth=m)
        for n in (k - 1, k, k + 1):
            add(data={'leafn': n})
            add(data={'rootn': n})
            add(depth=1, data={'rootn': n})
    for k in consts:
        for f in (0.3, 0.9, 1.1, 3.0):
            add(depth=2, data={'unit': k * f})
            if 1 < k * f < 1e12:
                add(depth=2, data={'many': int(np.ceil(k * f))})
            add(depth=2, scale={'best_log_p_data_split_': lambda v, f=f: v + k * f * r.uniform(0.3, 1.0)})
            add(depth=3, scale={'best_log_p_data_split_': lambda v, f=f: v + k * f * (r.random() < 0.4)})
            add(depth=2, scale={'log_p_data_no_split_': lambda v, f=f: v - k * f, 'best_log_p_data_split_': lambda v, f=f: v - k * f * 0.5})
            add(depth=2, scale={'split_value_': lambda v, f=f: (v if v else 1.0) * k * f, 'best_hyperplane_origin_': lambda v, f=f: v * k * f})
            if family(t) == 'perp' and 3 <= k <= 200:
                add(depth=2, scale={'split_feature_name_': lambda v, f=f: v + 'x' * int(k * f)})
    for k in ints:
        if 3 <= k <= 70000:
            for n in ((k - 1, k, k + 1, 2 * k + 1) if k <= 300 else (k, k + 1, 2 * k + 1) if k <= 5000 else (k + 1, 2 * k + 1) if k <= 20000 else (k + 1,)):
                add(depth=1, n=n)
                if k <= 5000:
                    add(depth=2, n=n)
    return out


class Budget:
    """time left for directed interpretations in this run"""
    left = 240.0


def below(t, node, x):
    """does the row go to the first child"""
    with np.errstate(all='ignore'):
        if family(t) == 'perp':
            return bool(x[node.attrs['split_dimension_']] < node.attrs['split_value_'])
        v, o = node.attrs['best_hyperplane_normal_'], node.attrs['best_hyperplane_origin_']
        return bool(np.dot(x, v) - np.dot(v, o) < 0)


def leaf_of(t, node, x, path=None):
    while node.kids:
        b = below(t, node, x)
        if path is not None:
            path.append((node.attrs['split_dimension_'], node.attrs['split_feature_name_'], node.attrs['split_value_'], not b))
        node = node.kids['child1_' if b else 'child2_']
    return node


def answer(t, m, leaf):
    p = leaf.attrs['posterior_']
    if m == 'predict':
        return float(np.argmax(p)) if is_clf(t) else p[0]
    if m == 'predict_proba':
        return p / np.sum(p)
    return np.array([leaf.attrs['prior_'], p])


def extremes(C, t, consts):
    """trees met by batches with entries at and around the numbers of the summaries: [(tree, dims, magnitude)]"""
    G = TreeGen(C, t, family(t), is_clf(t), C.states(t))
    r = np.random.default_rng(77)
    dims = 2
    for k in consts:
        for f in (0.45, 1.1, 3.0, 1.1, 3.0, 3.0, 7.0):
            for depth in (1, 1, 2, 2, 2):
                tr = G.random(r, depth, dims, 2)
                yield tr, dims, k * f
                if depth == 2:
                    tr = G.random(r, depth, dims, 2)
                    for x in walk(tr):
                        for at in (x.attrs, x.full or {}):
                            if at.get('split_value_') is not None:
                                at['split_value_'] = at['split_value_'] + k * f * r.choice([-0.5, 0.5])
                    yield tr, dims, k * f


def queries(r, t, tree, dims, i, empty=True, n=None, magnitude=None):
    """batches of rows, with rows on splits, missing values, one row, no row"""
    fixed = n is not None
    n = [5, 1, 3, 8, 2][i % 5] if n is None else n
    if i % 9 == 8 and empty and not fixed:
        n = 0
    X = np.round(r.normal(size=(n, dims)), 1)
    if n:
        inner = [x for x in walk(tree) if x.kids]
        for k in range(n):
            if inner and r.random() < 0.4:
                x = inner[int(r.integers(0, len(inner)))]
                if family(t) == 'perp':
                    X[k, x.attrs['split_dimension_']] = x.attrs['split_value_'] if r.random() < 0.6 else np.nextafter(x.attrs['split_value_'], r.choice([-9.0, 9.0]))
                elif np.count_nonzero(x.attrs['best_hyperplane_normal_']) == 1:
                    X[k] = x.attrs['best_hyperplane_origin_']
            if r.random() < 0.12:
                X[k, int(r.integers(0, dims))] = [np.nan, np.inf, -np.inf, 0.0][int(r.integers(0, 4))]
    if magnitude is not None:
        X = np.where(r.random(X.shape) < 0.3, 0.0, X)
        X = np.where(r.random(X.shape) < 0.25, magnitude * r.choice([-1.0, 1.0]), X)
    return X


def more_queries(C, t, consts, kind):
    """trees and batches at the numbers of the summaries"""
    for i, (tr, dims, n) in enumerate(directed(C, t, consts)):
        X = queries(np.random.default_rng(i), t, tr, dims, i, empty=False, n=n)
        yield tr, (np.nan_to_num(X, posinf=3.0, neginf=-3.0) if kind != 'ndarray' else X)
    for i, (tr, dims, mag) in enumerate(extremes(C, t, consts)):
        X = queries(np.random.default_rng(i), t, tr, dims, i, empty=False, n=6, magnitude=mag)
        yield tr, np.nan_to_num(X, posinf=3.0, neginf=-3.0)


def near_edge(t, tree, X):
    """a row so close to a hyperplane that rounding decides"""
    if family(t) == 'perp':
        return False
    with np.errstate(all='ignore'):
        for x in walk(tree):
            if x.kids:
                v, o = x.attrs['best_hyperplane_normal_'], x.attrs['best_hyperplane_origin_']
                if np.count_nonzero(v) > 1:
                    d = np.abs(X @ v - np.dot(v, o))
                    if d.size and np.nanmin(np.where(np.isnan(d), np.inf, d)) < 1e-9:
                        return True
    return False


def simulate(R, name, where, cases, actual, expected, compare=same, more=None):
    """cases: iterable; actual(case) by the summaries of the code, expected(case) by the specification; more(): further cases for the numbers in the summaries"""
    n = 0
    t0 = None
    base = 0
    work = list(cases)
    k = 0
    while True:
        if k == len(work):
            if more is None or t0 is not None or not n:
                break
            t0, base = time.time(), n
            work = work + list(more())
            if k == len(work):
                break
        case = work[k]
        k += 1
        if t0 is not None and time.time() - t0 > Budget.left:
            break
        try:
            exp = expected(case)
        except (BadValue, KeyError):
            continue
        if exp is None:
            continue
        try:
            act = actual(case)
        except CantEval as ex:
            if t0 is not None:
                continue
            return R.add(name, 'unknown', where, 'no interpretation of ' + str(ex))
        except BadValue as ex:
            return R.add(name, 'refuted', where, 'no value: {} (expected {})'.format(ex, short(exp)))
        except Raised as ex:
            return R.add(name, 'refuted', where, '{} instead of {}'.format(ex, short(exp)))
        n += 1
        if not compare(act, exp):
            return R.add(name, 'refuted', where, '{} instead of {}'.format(short(act), short(exp)))
    if t0 is not None:
        Budget.left -= time.time() - t0
    if not n:
        return R.add(name, 'unknown', where, 'no interpretation in the domain')
    return R.add(name, 'equal', where, 'holds under {} interpretations'.format(n))


def where_of(c):
    f = getattr(c, 'func', None)
    return (f.module.rel, f.node.lineno) if f is not None else None


# ---------------------------------------------------------------------------------------------------------------- routing: structural
def split_args(c, g):
    A = c.attrs
    if family(c.tname) == 'perp':
        return [A.get('split_dimension_'), A.get('split_value_')]
    return [A.get('best_hyperplane_normal_'), A.get('best_hyperplane_origin_')]


def dense(g, n, memo=None):
    """the same values as a dense matrix term: sparse format conversions removed"""
    memo = {} if memo is None else memo
    if not is_node(n) or n.op in ('const', 'param', 'attr0'):
        return n
    if n in memo:
        return memo[n]
    memo[n] = n
    if n.op in ('csc', 'csr', 'toarray'):
        r = dense(g, n.args[0], memo)
    elif n.op == 'gamma' and dense(g, n.args[1], memo) is dense(g, n.args[2], memo):
        r = dense(g, n.args[1], memo)
    elif n.op == 'gamma' and n.args[0].op == 'eq' and squeezed(g, n, memo) is not None:
        r = squeezed(g, n, memo)
    else:
        args = tuple(dense(g, x, memo) if is_node(x) else x for x in n.args)
        r = g.mk(n.op, *args) if any(a is not b for a, b in zip(args, n.args)) else n
    memo[n] = r
    return r


def squeezed(g, n, memo):
    """a column taken out of a one-column matrix, with the special case of one row"""
    return None


class Chain:
    """the final content of an answer container as a chain of recursive calls on a fresh base"""
    def __init__(self, c, t):
        self.ok, self.steps, self.base = True, [], None
        g = c.g
        while True:
            guard = None
            if t.op == 'gamma':
                cond, a, b = t.args
                if a.op == 'after' and a.args[4] is b:
                    guard, t = (cond, True), a
                elif b.op == 'after' and b.args[4] is a:
                    guard, t = (cond, False), b
                else:
                    self.ok = False
                    return
            if t.op != 'after':
                self.base = t
                return
            self.steps.append((guard, t))
            t = t.args[4]


def same_rows(g, a, b):
    return a is b


def route_proof(C, c, t, indices, X):
    """t: final content of the container in inner-state context c.  True if exactly the two children answer exactly their rows."""
    g = c.g
    ch = Chain(c, t)
    if not ch.ok or len(ch.steps) != 2 or any(x is None for x in split_args(c, g)) or 'child1_' not in c.kids:
        return None, None
    s = Spec(c)
    m = s.nf('below_rows' if family(c.tname) == 'perp' else 'behind_rows', dense(g, X), indices, *split_args(c, g))
    if m is None:
        return None, None
    side = {c.kids['child1_']: g.mk('nonzero', m), c.kids['child2_']: g.mk('nonzero', g.mk('not', m))}
    seen = set()
    for guard, a in ch.steps:
        recv = a.args[3]
        if recv not in side or recv in seen:
            return None, None
        seen.add(recv)
        rows = side[recv]
        if guard is not None and not (guard[1] and dense(g, guard[0]) is g.mk('nonempty', g.dim(rows, 0))):
            return None, None
        e = next((e for e in c.evs('rcall') if (e.receiver is recv) and all(e.vals.get(x.args[0].args[0]) is x.args[1] for x in a.args[5].args)), None)
        if e is None:
            return None, None
        pairs = {x.args[0].args[0]: x.args[1] for x in a.args[5].args}
        ok_i = [p for p, v in pairs.items() if dense(g, v) is g.index(indices, rows)]
        ok_x = [p for p, v in pairs.items() if is_node(v) and g.rank(v) == 2 and dense(g, v) is dense(g, X)]
        if len(ok_i) != 1 or len(ok_x) != 1:
            return None, None
        for p, v in pairs.items():
            if p in ok_i or p in ok_x:
                continue
            mine = getattr(c, 'args', {}).get(p)
            if not (v.op == 'const' or v is mine):
                return None, None
    return True, ch.base


def leaf_proof(c, t, cont, indices):
    """at a leaf: the container with every asked row set to one value that depends on nothing but the node; returns the value"""
    g = c.g
    if t.op != 'fill' or t.args[0] is not cont:
        return None
    init, k, trip, idx, val = t.args
    if trip is not g.dim(indices, 0) or idx is not g.index(indices, g.raw('bvar', k)):
        return None
    bad = [x for x in g.walk(val) if x is cont or x is indices or x.op in ('bvar', 'pos') or (x.op == 'param' and x.args[0].startswith('arg.')) or (x.op == 'param' and x.args[0] == 'X')]
    return None if bad else val


def recursive_container(c):
    """(event, container parameter) of the recursive calls of a query context"""
    out = []
    for e in c.evs('rcall'):
        if e.seq < c.ctor_events or e.receiver not in c.kids.values():
            continue
        out.append(e)
    return out


def steps_of(C, t, kind, m):
    """entry context at an inner node and the step contexts reached from it, per state"""
    S = Sim(C, t, kind)
    c = C.query(t, m, 'inner', kind)
    if c.error:
        return S, c, []
    out = []
    work = [c]
    seen = set()
    while work:
        k = work.pop()
        for e in recursive_container(k):
            for state in ('inner', 'leaf', 'leaf child') + (('pruned',) if 'pruned' in C.states(t).states else ()):
                if not C.states(t).states.get(state):
                    continue
                try:
                    q = S.step_ctx(k, e, state)
                except CantEval:
                    continue
                if id(q) not in seen:
                    seen.add(id(q))
                    out.append((q, k, e))
                    if state == 'inner' and len(seen) < 40:
                        work.append(q)
    return S, c, out


def leaf_nf(c, t, m):
    """normal form of the answer of a leaf"""
    g, A = c.g, c.attrs
    post, prior = A.get('posterior_'), A.get('prior_')
    if post is None:
        return None
    if m == 'predict_proba':
        return Spec(c).nf('proba', post)
    if m == 'predict':
        return Spec(c).nf('best_class', post) if is_clf(t) else g.index(post, g.const(0))
    return g.mk('asarray', g.raw('list', prior, post)) if prior is not None else None


def prove_routing(C, t, kind, m):
    """structural proof of C01 by induction over the tree, from the entry and the step summaries"""
    def no(k):
        prove_routing.why = k
        return False
    S, c, steps = steps_of(C, t, kind, m)
    if c.error or not steps:
        return no(1)
    g = c.g
    X = c.X
    n = g.mk('arange', g.const(0), g.dim(X, 0), g.const(1))
    v = c.value
    while v.op in ('asarray', 'aslist', 'copy'):
        v = v.args[0]
    ok, base = route_proof(C, c, dense(g, v) if False else v, n, X)
    if not ok:
        return no(2)
    if base.op == 'seqmul':
        if not (base.args[0].op == 'list' and len(base.args[0].args) == 1 and dense(g, base.args[1]) is g.dim(X, 0)):
            return no(3)
    elif base.op in ('zeros', 'empty', 'ones', 'full', 'map'):
        if not (dense(g, g.dim(base, 0)) is g.dim(X, 0)):
            return no(4)
        # every row is overwritten, so the initial content does not matter; answers must not be narrowed by the element type
        if base.op != 'map':
            d = base.args[-1]
            if not (is_node(d) and d.op == 'const' and d.args[0] in ('float64', 'object')):
                return no(5)
    else:
        return no(6)
    for q, k, e in steps:
        cp = [p for p in q.args if q.args[p].op == 'param' and p in {a.args[2] for _, a in Chain(k, k.I.deref(cont_of(k), k.state)).steps}]
        if len(cp) != 1 or q.state is None:
            return no(7)
        cont = q.args[cp[0]]
        idx = [a for p, a in q.args.items() if a.op == 'param' and q.g.kind(a) == 'ndarray' and q.g.rank(a) == 1 and a is not cont]
        xs = [a for p, a in q.args.items() if a.op == 'param' and q.g.rank(a) == 2 and a is not cont]
        if len(idx) != 1 or len(xs) != 1:
            return no(8)
        final = q.I.deref(cont, q.state)
        if q.qstate == 'inner':
            ok, base = route_proof(C, q, final, idx[0], xs[0])
            if not ok or base is not cont:
                return no(9)
        elif leaf_proof(q, final, cont, idx[0]) is not leaf_nf(q, t, m) or leaf_nf(q, t, m) is None:
            return no(10)
    # a tree that is a single leaf
    for state in ('leaf',):
        cl = C.query(t, m, state, kind)
        if cl.error or cl.state is None:
            return no(11)
        v = cl.value
        while v.op in ('asarray', 'aslist', 'copy'):
            v = v.args[0]
        gl = cl.g
        if v.op != 'fill':
            return no(12)
        init, kk, trip, ix, val = v.args
        if dense(gl, trip) is not gl.dim(cl.X, 0) or ix is not gl.raw('bvar', kk) or val is not leaf_nf(cl, t, m):
            return no(13)
    return True


def cont_of(k):
    """the container node of the answers in a context (the written argument of its recursive calls)"""
    for e in recursive_container(k):
        for p in sorted(k.I.mutated_params(e.func)):
            if p in e.args and is_node(e.args[p]) and e.args[p].op != 'const':
                return e.args[p]
    return k.g.none


def where_inner(c):
    es = recursive_container(c)
    return es[0].where if es else where_of(c)


@rule('C01')
def routing(R, tier):
    C = contexts()
    R.rules.append('final content of the answer container = chain of exactly two recursive calls on fresh storage, each with the rows its side of the split selects; otherwise random interpretation over random trees')
    for t in TREES:
        for m in methods(C, t, ('predict', 'predict_proba', '_get_raw_leaf_data')):
            for kind in ('ndarray', 'csc', 'csr'):
                name = '{} {} {}: every row is answered by the leaf its features lead to'.format(t, m, kind)
                guarded(R, name, routing_one, R, tier, C, t, m, kind, name)


def routing_one(R, tier, C, t, m, kind, name):
    c = C.query(t, m, 'inner', kind)
    R.saw(c)
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    try:
        if prove_routing(C, t, kind, m):
            return R.add(name, 'proved', where_inner(c), 'induction over the tree from the summaries at inner nodes and leaves')
    except Exception as ex:
        R.note = str(ex)
    S = Sim(C, t, kind)
    cases = []
    for i, (tr, dims, r) in enumerate(trees(C, t, 40 if tier == 'quick' else 300, tier)):
        X = queries(r, t, tr, dims, i, empty=kind == 'ndarray')
        if kind != 'ndarray' and (np.isnan(X).any() or np.isinf(X).any()):
            X = np.nan_to_num(X, posinf=3.0, neginf=-3.0)
        cases.append((tr, X))

    def expected(case):
        tr, X = case
        if near_edge(t, tr, X):
            return None
        return [answer(t, m, leaf_of(t, tr, x)) for x in X]

    def actual(case):
        S.budget = 20000
        return S.entry(m, case[0], X=case[1])[0]

    def compare(a, b):
        if len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(a, b))
    def more():
        return more_queries(C, t, S.constants(), kind)
    return simulate(R, name, where_inner(c), cases, actual, expected, compare, more)


# ---------------------------------------------------------------------------------------------------------------- paths
@rule('C02')
def paths(R, tier):
    C = contexts()
    R.rules.append('replay of the list effects of the path query (lists by identity) against the specification, over random trees')
    for t in TREES:
        for m in methods(C, t, ('prediction_paths',)):
            for kind in ('ndarray', 'csc', 'csr'):
                name = '{} {} {}: the path of every row is the splits it passes'.format(t, m, kind)
                guarded(R, name, paths_one, R, tier, C, t, m, kind, name)


def path_step(c, X, indices, lists):
    """does the summary of an inner node append exactly its step to the list of every row and pass on exactly the right lists"""
    g = c.g
    if any(x is None for x in split_args(c, g)) or set(c.kids) != {'child1_', 'child2_'}:
        return 1
    s = Spec(c)
    m = s.nf('below_rows', dense(g, X), indices, *split_args(c, g))
    if m is None:
        return 2
    rows = {False: g.mk('nonzero', m), True: g.mk('nonzero', g.mk('not', m))}
    evs = [e for e in c.I.events[c.ctor_events:] if e.kind in ('listmut', 'rcall', 'setitem', 'inplace')]
    local = [e for e in evs if not (e.kind == 'listmut' and e.target.op == 'ref')]
    apps = [e for e in local if e.kind == 'listmut']
    calls = [e for e in local if e.kind == 'rcall']
    if len(apps) != 2 or len(calls) != 2 or len(local) != 4:
        return 3
    when = {}
    for e in apps:
        if e.how != 'append':
            return 4
        v = e.d['vals'][0]
        if v.op != 'tuple' or len(v.args) != 4 or v.args[3].op != 'const' or not isinstance(v.args[3].args[0], bool):
            return 5
        side = v.args[3].args[0]
        if side in when or v.args[:3] != (c.attrs.get('split_dimension_'), c.attrs.get('split_feature_name_'), c.attrs.get('split_value_')):
            return 6
        loops = [x for x, p in e.pc if x.op == 'loop']
        if len(loops) != 1:
            return 7
        L = loops[0].args[0]
        info = g.loops[L]
        if not is_node(info['trip']) or dense(g, info['trip']) is not g.dim(rows[side], 0) or info['breaks'] or info['rets']:
            return 8
        if not guards_ok(c, e, rows[side], None):
            return 9
        if dense(g, e.target) is not lists(g.index(rows[side], g.raw('pos', L))):
            return 10
        when[side] = e.seq
    seen = set()
    for e in calls:
        side = {c.kids['child1_']: False, c.kids['child2_']: True}.get(e.receiver)
        if side is None or side in seen or side not in when or e.seq < when[side]:
            return 11
        seen.add(side)
        if not guards_ok(c, e, rows[side], e.receiver):
            return 12
        want = {'x': dense(g, X), 'i': g.index(indices, rows[side])}
        got = {'x': 0, 'i': 0, 'p': 0}
        for p, v in e.vals.items():
            d = dense(g, v)
            if d is want['x']:
                got['x'] += 1
            elif d is want['i']:
                got['i'] += 1
            elif d.op == 'map' and d.args[1] is g.dim(rows[side], 0) and d.args[2] is lists(g.index(rows[side], g.raw('bvar', d.args[0]))) and not d.args[3]:
                got['p'] += 1
            elif v.op != 'const':
                return 13
        if set(got.values()) != {1}:
            return 14
    return None


def flat_pc(pc):
    """conjunction of atoms (node, polarity) without loop markers"""
    out = []
    work = list(pc)[::-1]
    while work:
        x, p = work.pop()
        if x.op == 'loop':
            continue
        if x.op == 'not':
            work.append((x.args[0], not p))
        elif (x.op == 'and' and p) or (x.op == 'or' and not p):
            work.extend((y, p) for y in reversed(x.args))
        else:
            out.append((x, p))
    return out


def guards_ok(c, e, rows, recv):
    """the event happens whenever the side has rows (and, for recursive calls, the child is no leaf)"""
    g = c.g
    flat = flat_pc(e.pc)
    for x, p in flat:
        d = dense(g, x)
        if p and d is g.mk('nonempty', g.dim(rows, 0)):
            continue
        if recv is not None and not p and d.op == 'is' and d.args[1] is g.none and d.args[0].op == 'attr0' and d.args[0].args[0] is recv and d.args[0].args[1] == 'split_value_':
            continue
        if p and d.op == 'eq' and c.attrs.get('n_dim_') in d.args:
            continue                              # the width check
        return False
    return True


def prove_paths(C, t, kind, m):
    S, c, steps = steps_of(C, t, kind, m)
    if c.error or not steps:
        return 100
    g, X = c.g, c.X
    v = c.value
    if v.op != 'map' or dense(g, v.args[1]) is not g.dim(X, 0) or v.args[2].op != 'cell' or v.args[2].args[1:] != (g.raw('bvar', v.args[0]),) or v.args[3]:
        return 101
    uid = v.args[2].args[0]
    r = path_step(c, X, g.mk('arange', g.const(0), g.dim(X, 0), g.const(1)), lambda i: g.raw('cell', uid, i))
    if r:
        return r
    for q, k, e in steps:
        if q.error or q.state is None:
            return 102
        gq = q.g
        if q.qstate != 'inner':
            if [x for x in q.I.events[q.ctor_events:] if x.kind in ('listmut', 'rcall', 'setitem', 'inplace')]:
                return 103
            continue
        idx = [a for a in q.args.values() if a.op == 'param' and gq.kind(a) == 'ndarray' and gq.rank(a) == 1]
        xs = [a for a in q.args.values() if a.op == 'param' and gq.rank(a) == 2]
        ls = [a for a in q.args.values() if a.op == 'param' and a not in idx and a not in xs]
        if len(idx) != 1 or len(xs) != 1 or len(ls) != 1:
            return 104
        r = path_step(q, xs[0], idx[0], lambda i: gq.index(ls[0], i))
        if r:
            return 200 + r
    cl = C.query(t, m, 'leaf', kind)
    if cl.error or cl.state is None or [x for x in cl.I.events[cl.ctor_events:] if x.kind in ('listmut', 'rcall', 'setitem', 'inplace')]:
        return 105
    v = cl.value
    if v.op != 'map' or dense(cl.g, v.args[1]) is not cl.g.dim(cl.X, 0) or v.args[3]:
        return 106
    return None


def paths_one(R, tier, C, t, m, kind, name):
    c = C.query(t, m, 'inner', kind)
    R.saw(c)
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    try:
        why = prove_paths(C, t, kind, m)
        if why is None:
            return R.add(name, 'proved', where_inner(c), 'induction over the tree from the list effects at inner nodes and leaves')
        R.why = why
    except Exception as ex:
        R.why = repr(ex)
    S = Sim(C, t, kind)
    cases = []
    for i, (tr, dims, r) in enumerate(trees(C, t, 40 if tier == 'quick' else 300, tier)):
        X = queries(r, t, tr, dims, i, empty=kind == 'ndarray')
        if kind != 'ndarray':
            X = np.nan_to_num(X, posinf=3.0, neginf=-3.0)
        cases.append((tr, X))

    def expected(case):
        out = []
        for x in case[1]:
            p = []
            leaf_of(t, case[0], x, p)
            out.append(p)
        return out

    def actual(case):
        S.budget = 20000
        v = S.replay(m, *case)
        return [list(x) for x in v]

    def compare(a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if len(p) != 4 or p[0] != q[0] or p[1] != q[1] or p[2] != q[2] or bool(p[3]) != q[3]:
                    return False
        return True
    def more():
        return more_queries(C, t, S.constants(), kind)
    return simulate(R, name, where_inner(c), cases, actual, expected, compare, more)


# ---------------------------------------------------------------------------------------------------------------- probabilities
LEAVES = ('leaf', 'leaf child', 'pruned')


@rule('C17')
def probabilities(R, tier):
    C = contexts()
    R.rules.append('leaf answers of predict_proba and predict have the normal forms posterior/sum(posterior) and argmax(posterior); otherwise random interpretation')
    for t in [x for x in TREES if is_clf(x)]:
        for state in LEAVES:
            if not C.states(t).states.get(state):
                continue
            for m, f in (('predict_proba', 'proba'), ('predict', 'best_class')):
                c = C.query(t, m, state)
                R.saw(c)
                name = '{} {} at a {}'.format(t, m, state)
                if c.error or c.state is None or 'posterior_' not in c.attrs:
                    R.add(name, 'unknown', None, c.error or 'no value')
                    continue
                v = c.value
                while v.op in ('asarray', 'aslist', 'copy'):
                    v = v.args[0]
                nf = Spec(c).nf(f, c.attrs['posterior_'])
                if v.op == 'fill' and v.args[4] is nf:
                    R.add(name, 'proved', where_of(c), 'normal form of the leaf answer')
                    continue
                S = Sim(C, t)
                r = rng(5)
                cases = []

                def leafnode(post):
                    """a leaf with about this posterior, which some prior and some data give"""
                    post = np.array(post, dtype=float)
                    k = np.maximum(np.ceil(post) - 1, 0)
                    if not k.sum():
                        add = np.ones(len(post)) if (post == post[0]).all() else np.arange(len(post)) == r.integers(0, len(post))
                        post, k = post + add, k + add
                    return N(state, {'posterior_': post, 'prior_': post - k, 'n_dim_': 2, 'n_data_': int(k.sum()), 'split_value_': None, 'best_hyperplane_normal_': None},
                             {'level': 0, 'prior': post - k, 'partition_prior': 0.9, 'delta': 0.0, 'prune': False, 'split_precision': 0.0})

                for i in range(60):
                    K = 2 + i % 3
                    post = np.round(r.uniform(0.01, 5, size=K), 2)
                    if i % 4 == 0:
                        post[:] = post[0]
                    elif i % 4 == 1:
                        post = post * 10.0 ** r.integers(-12, 12)
                    cases.append(leafnode(post))
                X = np.array([[0.5, 1.0], [-1.0, 0.0]])

                def more():
                    for k in S.constants():
                        if k == int(k) and 2 <= k <= 5000:
                            for K in (k - 1, k, k + 1, 2 * k):
                                yield leafnode(np.round(r.uniform(0.01, 5, size=max(2, int(K))), 2))
                                yield leafnode(np.where(np.arange(max(2, int(K))) == max(2, int(K)) - 1, 7.0, 0.5))
                        for f in (0.3, 0.9, 1.1, 3.0):
                            yield leafnode(r.uniform(0.1, 1, size=3) * k * f)
                            yield leafnode(np.array([0.5, 0.3, k * f]))
                            yield leafnode(np.array([0.5, 0.5 * (1 + k * f)]))
                simulate(R, name, where_of(c), cases, lambda nd: S.entry(m, nd, X=X)[0],
                         lambda nd: [py.proba(nd.attrs['posterior_']) if f == 'proba' else float(np.argmax(nd.attrs['posterior_']))] * 2,
                         lambda a, b: len(a) == len(b) and all(same(x, y, 1e-12) for x, y in zip(a, b)), more)


# ---------------------------------------------------------------------------------------------------------------- importances
def importance(t, tree, dims):
    tot = np.zeros(dims)
    for x in walk(tree):
        if x.kids:
            gain = x.attrs['best_log_p_data_split_'] - x.attrs['log_p_data_no_split_']
            if family(t) == 'perp':
                tot[x.attrs['split_dimension_']] += gain
            else:
                tot += gain * np.abs(x.attrs['best_hyperplane_normal_'])
    return tot / tot.sum() if tot.sum() > 0 else tot


@rule('C19')
def importances(R, tier):
    C = contexts()
    R.rules.append('summaries of the importance query resolved over random trees against the specification')
    for t in TREES:
        if not methods(C, t, ('feature_importance',)):
            continue
        name = '{} feature_importance'.format(t)
        guarded(R, name, tree_query, R, tier, C, t, 'feature_importance', name, lambda tr, dims: importance(t, tr, dims),
                lambda a, b: isinstance(a, np.ndarray) and a.shape == b.shape and same(a, b, 1e-9))


def tree_query(R, tier, C, t, m, name, spec, compare=same, n=200):
    c = C.query(t, m, 'inner')
    R.saw(c)
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    S = Sim(C, t)
    cases = [(tr, dims) for tr, dims, r in trees(C, t, n if tier == 'quick' else 6 * n, tier, depth=5)]

    def actual(case):
        S.budget = 20000
        return S.entry(m, case[0])[0]
    return simulate(R, name, where_inner(c), cases, actual, lambda case: spec(*case), compare, lambda: [(tr, dims) for tr, dims, n in directed(C, t, S.constants()) if n is None or n < 10])


# ---------------------------------------------------------------------------------------------------------------- depth, leaves, text
def depth_of(tree):
    return max(x.params['level'] for x in walk(tree))


def text_ok(t, tree, s):
    """does the text show every node once, in order, with its split or prediction under the branch it belongs to"""
    if not isinstance(s, str):
        return False
    lines = re.sub(r'\[[^\[\]]*\]', lambda m: m.group().replace('\n', ' '), s).split('\n')
    want = []
    pre(t, tree, None, None, want, 0)
    if len(lines) != len(want):
        return False
    for line, toks in zip(lines, want):
        pos = 0
        shares = toks.pop() if toks and not isinstance(toks[-1], str) else None
        toks = [k.replace('\n', ' ') for k in toks]
        for tok in toks:
            m = re.compile(r'(?<![\w.])' * (tok[0].isalnum()) + re.escape(tok) + r'(?![\w])(?!\.\d)' * (tok[-1].isalnum())).search(line, pos)
            if m is None:
                return False
            pos = m.end()
        if shares is not None:
            # the class probabilities of a leaf, in whatever notation
            seen = [float(x) for x in re.findall(r'(?<![\w.])-?\d+\.?\d*(?:[eE][-+]?\d+)?%?', line[pos:].replace('%', '')) if '...' not in line]
            scale = 100 if '%' in line[pos:] else 1
            if len(seen) < len(shares) and '...' not in line or any(abs(a - scale * b) > 0.006 * scale for a, b in zip(seen, shares)):
                return False
    return True


def pre(t, node, side, parent, out, depth):
    toks = []
    if side is not None:
        toks.append(('<' if side else '\u2265') + str(parent.attrs['split_value_']) + ':' if family(t) == 'perp' else ('back' if side else 'front'))
    if node.kids:
        if family(t) == 'perp':
            toks += [node.attrs['split_feature_name_'], str(node.attrs['split_value_'])]
        else:
            toks += [str(node.attrs['best_hyperplane_origin_']), str(node.attrs['best_hyperplane_normal_'])]
    else:
        p = node.attrs['posterior_']
        toks += [str(np.argmax(p)) if is_clf(t) else str(p[0]), 'n=' + str(node.attrs['n_data_'])]
    if not node.kids and is_clf(t):
        toks.append(list(p / np.sum(p)))
    out.append(toks)
    for a, b in (('child1_', True), ('child2_', False)):
        if a in node.kids:
            pre(t, node.kids[a], b, node, out, depth + 1)


@rule('C20')
def structure(R, tier):
    C = contexts()
    R.rules.append('summaries of depth, leaf count and text resolved over random trees against the specification')
    for t in TREES:
        guarded(R, t + ' get_depth', tree_query, R, tier, C, t, 'get_depth', t + ' get_depth', lambda tr, d: depth_of(tr))
        guarded(R, t + ' get_n_leaves', tree_query, R, tier, C, t, 'get_n_leaves', t + ' get_n_leaves', lambda tr, d: sum(1 for x in walk(tr) if not x.kids))
        for m in ('__str__', '__repr__'):
            guarded(R, t + ' ' + m, tree_query, R, tier, C, t, m, '{} {}'.format(t, m), lambda tr, d: tr, lambda a, b: text_ok(t, b, a), 80)
