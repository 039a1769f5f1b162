"""One step of training (one node of the tree) as a set of value-graph terms, and its value under interpretations of the leaves."""
import numpy as np
import scipy.sparse as sp

from .contexts import family, is_clf
from .graph import is_node
from .interp import pc_node
from .spec import Spec, py
from .termeval import BadValue, CantEval, Eval
from . import vals as V


class Rec:
    """value set by the recursive training of a child"""
    def __init__(self, child, attr):
        self.child, self.attr = child, attr

    def __repr__(self):
        return '<value set by the training of child {}>'.format(self.child)


UNSET = type('Unset', (), {'__repr__': lambda s: '<unset>'})()


class FitModel:
    def __init__(self, c, cls):
        self.c = c
        self.I, self.g = c.I, c.g
        self.clf = is_clf(c.tname)
        self.perp = family(c.tname) == 'perp'
        self.cls = cls
        self.heap = {}
        for (o, a), v in c.state.heap.items():
            self.heap[(o, a)] = self.I.deref(v, c.state)
        self.rcalls = [e for e in c.evs('rcall') if e.seq >= c.ctor_events]
        self.spec = Spec(c)
        self.SI = getattr(c, 'SI', None)
        self._search()

    def attr(self, o, a):
        return self.heap.get((o, a))

    def root(self, a):
        return self.attr(self.c.obj, a)

    # ------------------------------------------------------------------ search loop
    def _search(self):
        """loops whose results (fin nodes) the learned attributes depend on"""
        g = self.g
        fins = {}
        seen = set()
        for k in sorted(self.heap, key=lambda k: (k[0].id, k[1])):
            for n in g.walk(self.heap[k], seen):
                if n.op == 'fin':
                    fins.setdefault(n.args[0], {})[n.args[1]] = n
        for e in self.rcalls:
            for v in e.vals.values():
                if is_node(v):
                    for n in g.walk(v, seen):
                        if n.op == 'fin':
                            fins.setdefault(n.args[0], {})[n.args[1]] = n
        self.fins = fins
        self.loop = None
        if len(fins) == 1:
            L = next(iter(fins))
            self.loop = g.loops.get(L)

    def loop_back(self):
        """{variable: (mu node, fin node or None, next value)}"""
        info = self.loop
        L = info['id']
        out = {}
        b = info['back']
        if b is None:
            return out
        for n in sorted(info['names']):
            m, v = info['start'].env.get(n), b.env.get(n)
            if m is not None and is_node(m) and m.op == 'mu' and v is not None:
                out[n] = (m, self.fins.get(L, {}).get(n), self.I.deref(v, b))
        for k in info['heap']:
            m, v = info['start'].heap.get(k), b.heap.get(k)
            name = 'heap:{}:{}'.format(k[0].id, k[1])
            if m is not None and m.op == 'mu' and v is not None:
                out[name] = (m, self.fins.get(L, {}).get(name), self.I.deref(v, b))
        for k in info['content']:
            m, v = info['start'].content.get(k), b.content.get(k)
            name = 'content:{}'.format(k.id)
            if m is not None and m.op == 'mu' and v is not None:
                out[name] = (m, self.fins.get(L, {}).get(name), self.I.deref(v, b))
        return out

    # ------------------------------------------------------------------ reading the outcome
    def pick(self, n, ev):
        """the alternative of n (below gammas) that is chosen under the interpretation"""
        while is_node(n) and n.op == 'gamma':
            n = n.args[1] if ev._truth(ev(n.args[0])) else n.args[2]
        return n

    def value(self, o, a, ev, kids=None):
        n = self.heap.get((o, a))
        if n is None:
            return UNSET
        n = self.pick(n, ev)
        if n.op == 'undef':
            return UNSET
        if n.op == 'attr0' and n.args[0].op == 'new' and self.I.type_of(n.args[0]) is self.cls:
            return Rec(n.args[0], n.args[1])
        if n.op == 'new':
            return n
        return ev(n)

    def event_on(self, e, ev):
        for c, pol in e.pc:
            if c.op == 'loop':
                continue
            if ev._truth(ev(c)) != pol:
                return False
        return True


class Outcome:
    """observable outcome of one training step under one interpretation"""
    def __init__(self, m, leaves, hist=()):
        c = m.c
        self.m, self.leaves, self.hist = m, leaves, hist
        ev = self.ev = Eval(leaves, I=m.I)
        X = leaves[c.X]
        self.X = X.toarray() if sp.issparse(X) else np.asarray(X)
        self.y = leaves[c.y]
        self.rows = np.asarray(leaves[m.SI][0]) if m.SI is not None else np.arange(self.X.shape[0])
        self.yn = self.y[self.rows]
        p = lambda n: ev(c.params[n])
        self.p, self.delta, self.level, self.prec = p('partition_prior'), p('delta'), p('level'), p('split_precision')
        pr = c.params['prior']
        self.prior = p('prior') if not (pr.op == 'const' and pr.args[0] is None) else (py.clf_default_prior(self.yn) if m.clf else py.reg_default_prior(self.yn))
        self.k = {}
        for i in (1, 2):
            v = m.value(c.obj, m.c.kids[i - 1] if hasattr(m.c, 'kids') else 'child{}_'.format(i), ev)
            self.k[i] = v
        self.split = is_node(self.k[1]) or is_node(self.k[2])

    def get(self, a):
        return self.m.value(self.m.c.obj, a, self.ev)

    def child(self, i, a):
        return self.m.value(self.k[i], a, self.ev)

    def rcall(self, i):
        """the recursive call that trains child i, or None"""
        for e in self.m.rcalls:
            r = e.receiver
            if self.m.event_on(e, self.ev):
                r = self.m.pick(r, self.ev)
                if r is self.k[i]:
                    return e
        return None

    def child_rows(self, i):
        """(matrix rows, targets, order matrix or None) that child i is trained with by the recursive call"""
        e = self.rcall(i)
        if e is None:
            return None
        roles = self.m.roles
        ev = self.ev
        X = ev(e.vals[roles['X']])
        y = np.asarray(ev(e.vals[roles['y']]))
        if roles.get('SI'):
            si = np.asarray(ev(e.vals[roles['SI']]))
            Xd = X.toarray() if sp.issparse(X) else np.asarray(X)
            return Xd[si[0].astype(int)], y[si[0].astype(int)], si.astype(int)
        return X.toarray() if sp.issparse(X) else np.asarray(X), y, None


def table(X, y):
    """multiset of (row, target)"""
    return sorted(tuple(map(float, r)) + (float(t),) for r, t in zip(X, y))
