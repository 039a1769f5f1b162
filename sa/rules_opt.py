"""The hyperplane optimisers: vectors handed to the objective (length and range), polarity, state, randomness (C23, C12).
Interval and shape analysis over the value graph of `solve`; loops by fixpoint with widening."""
import copy
import math

import numpy as np
from scipy import sparse

from .contexts import TREES
from .graph import is_node
from .interp import Interp, State, Unsupported
from .loader import Class, Func
from .registry import contexts, guarded, rule
from .termeval import BadValue, CantEval, Eval, same, short
from .vals import constants

INF = math.inf
NEW_RNG = ('numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.Generator', 'random.Random', 'numpy.random.PCG64', 'numpy.random.MT19937', 'numpy.random.SeedSequence')
DRAWS = {'uniform', 'normal', 'randint', 'integers', 'random', 'random_sample', 'rand', 'randn', 'standard_normal', 'choice', 'permutation', 'shuffle', 'sample', 'beta', 'exponential', 'binomial',
         'poisson', 'gauss', 'betavariate', 'randrange', 'random_integers', 'multivariate_normal', 'laplace', 'gamma', 'dirichlet', 'triangular', 'choices', 'getrandbits', 'bytes', 'tomaxint',
         'normalvariate', 'lognormal', 'standard_gamma', 'standard_t', 'chisquare', 'logistic', 'permuted'}
VOLATILE = ('time.', 'datetime.', 'os.urandom', 'os.getpid', 'uuid.', 'secrets.', 'builtins.id', 'builtins.hash', 'socket.', 'threading.get_ident', 'os.getrandom', 'random.SystemRandom', 'platform.')


def optimizers(C):
    """concrete optimisers of the package"""
    base = C.P.classes.get('HyperplaneOptimizer')
    out = []
    for m in C.P.modules.values():
        for c in m.classes.values():
            f, owner = c.find('solve')
            if isinstance(f, Func) and c is not base and base is not None and base in c.mro() and owner is not base:
                out.append(c)
    return sorted(set(out), key=lambda c: c.name)


class Solve:
    """summary of one search"""
    def __init__(self, C, cls, kind='ndarray', left=None):
        self.C, self.cls, self.kind = C, cls, kind
        self.error = None
        self.label = '{} {}'.format(cls.name, kind)
        I = self.I = Interp(C.P, opaque=C.opaque, child_attrs=(), tree_cls=C.P.cls('HyperplaneClassificationTree'))
        g = self.g = I.g
        f, _ = cls.find('__init__')
        self.func, _ = cls.find('solve')
        try:
            self.params = {}
            if isinstance(f, Func):
                a = f.node.args
                for x in a.args[1:] + a.kwonlyargs:
                    self.params[x.arg] = g.param('ctor_' + x.arg)
            o = self.o = g.raw('new', cls, g.uid())
            g.set_fact(o, kind='obj')
            I.types[o] = cls
            s = State()
            if isinstance(f, Func):
                s, _ = I.run(f, o, self.params, s)
            self.n_ctor = len(I.events)
            s = State({}, s.heap, s.content, s.epoch)
            if left is not None:
                self.left = g.param('left_' + left, nonnull=True)
                s.heap[(o, left)] = self.left
            self.before = s.copy()
            self.events, s2 = self.once(s)
            self.after = s2
        except Unsupported as ex:
            self.error = str(ex)
        except RecursionError:
            self.error = 'recursion limit'

    def once(self, s):
        I, g = self.I, self.g
        ob = self.ob = g.param('objective', nonnull=True)
        self.X = g.param('X', kind=self.kind, rank=2, nonnull=True, dtype='float64')
        self.y = g.param('y', kind='ndarray', rank=1, nonnull=True, dtype='float64')
        s.heap[(ob, 'X')] = self.X
        s.heap[(ob, 'y')] = self.y
        n0 = len(I.events)
        ps = [a.arg for a in self.func.node.args.args if a.arg != 'self']
        s2, v = I.run(self.func, self.o, {ps[0]: ob}, s)
        self.callbacks(n0)
        return I.events[n0:], s2

    def callbacks(self, n0):
        """functions of the package handed to foreign code: analysed with unknown arguments"""
        I, g = self.I, self.g
        self.cbs = []
        for e in list(I.events[n0:]):
            if e.kind not in ('dyncall', 'extcall'):
                continue
            nodes = [a for a in list(e.d.get('vals') or []) + list((e.d.get('kvals') or e.d.get('kwargs') or {}).values()) if is_node(a)]
            for a in nodes:
                if a.op in ('lam', 'fn') and a in I.closures or a.op == 'bound':
                    f = I.closures[a] if a.op == 'lam' else a.args[1] if a.op == 'bound' else a.args[0]
                    recv = a.args[0] if a.op == 'bound' else None
                    if not isinstance(f, Func):
                        continue
                    ps = [x.arg for x in f.node.args.args]
                    if recv is not None:
                        ps = ps[1:]
                    nd = len(f.node.args.defaults)
                    args = {p: g.param('callback.' + p, nonnull=True) for p in (ps[:-nd] if nd else ps)}
                    st = e.d.get('state')
                    st = st.copy() if st is not None else State({}, dict(self.before.heap), dict(self.before.content), dict(self.before.epoch))
                    try:
                        s2, v = I.run(f, recv, args, st)
                        self.cbs.append((e, a, None if s2 is None else I.deref(v, s2), args))
                    except Unsupported:
                        self.cbs.append((e, a, None, args))

    # ------------------------------------------------------------------ what is handed to the objective
    def evaluations(self):
        for e in self.events_all():
            if e.kind == 'dyncall' and e.name == 'compute' and e.receiver is self.ob:
                yield e

    def events_all(self):
        return self.I.events[self.n_ctor:]

    def argument(self, e):
        vs = list(e.vals) + list(e.kvals.values())
        return vs[0] if len(vs) == 1 else None

    def hypercube(self):
        v = self.before.heap.get((self.o, 'search_space_is_unit_hypercube'))
        if v is None:
            v = next((self.I.deref(x, self.before) for (ob, a), x in self.before.heap.items() if ob is self.o and a == 'search_space_is_unit_hypercube'), None)
        return v.args[0] if v is not None and v.op == 'const' else None


# ------------------------------------------------------------------------------------------------ intervals
class Iv:
    """lo, hi: bounds of every value;  ulo, uhi: values taken by some execution (None: nothing known)"""
    __slots__ = ('lo', 'hi', 'ulo', 'uhi')

    def __init__(self, lo, hi, ulo=None, uhi=None):
        self.lo, self.hi, self.ulo, self.uhi = lo, hi, ulo, uhi

    def __repr__(self):
        return '[{}, {}]'.format(self.lo, self.hi)

    def key(self):
        return (self.lo, self.hi, self.ulo, self.uhi)


TOP = Iv(-INF, INF)


def exact(lo, hi):
    return Iv(lo, hi, lo, hi)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    u = (None, None)
    if a.ulo is not None and b.ulo is not None:            # only what both alternatives exceed is certain
        u = (max(a.ulo, b.ulo), min(a.uhi, b.uhi))
        if u[0] > u[1]:
            u = (None, None)
    return Iv(min(a.lo, b.lo), max(a.hi, b.hi), *u)


def partial(index):
    """the index leaves out entries of a long enough vector"""
    if not is_node(index):
        return False
    if index.op == 'const':
        return isinstance(index.args[0], int)
    if index.op == 'slice':
        v = [x.args[0] if is_node(x) and x.op == 'const' else x for x in index.args]
        return any(isinstance(x, int) and not isinstance(x, bool) and x != (0 if k == 0 else None) and not (k == 2 and x in (1, -1)) for k, x in enumerate(v)) and not any(is_node(x) for x in v)
    return False


def free(s, cond):
    """a condition on the number of features, rows or rounds or on a parameter that is met by some searches and not by others"""
    key = ('free', cond)
    memo = s.__dict__.setdefault('_free', {})
    if key not in memo:
        memo[key] = free0(s, cond)
    return memo[key]


def free0(s, cond):
    g = s.g
    kinds = {}
    st, seen = [cond], set()
    while st:
        x = st.pop()
        if not is_node(x) or x in seen:
            continue
        seen.add(x)
        if x.op == 'pos':
            kinds[x] = 'round'
        elif x is g.dim(s.X, 1) or x is g.dim(s.X, 0):
            kinds[x] = 'size'
        elif x.op == 'dyn' and x.args[0] == 'compute':
            kinds[x] = 'value'
        elif x.op == 'const' and not isinstance(x.args[0], (bool, str)):
            continue
        elif x.op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'not', 'and', 'or', 'add', 'sub', 'mul', 'floordiv', 'mod', 'div', 'abs', 'neg'):
            st += x.args
        else:
            return False
    if not kinds or len(set(kinds.values())) > 1 or len(kinds) > 1:
        return False
    (leaf, kind), = kinds.items()
    cs = [x.args[0] for x in seen if x.op == 'const' and isinstance(x.args[0], (int, float))]
    got = set()
    if kind == 'value':
        pts = [-1e3, -1.0, 0.5, 1e3] + [c + q for c in cs for q in (-1, 0, 1)]
    else:
        lo = 2 if kind == 'size' else 0
        pts = [int(p) for p in [lo, lo + 1, lo + 2, lo + 5] + [c + q for c in cs for q in (-1, 0, 1, 2)] if lo <= p < 1e5]
    for p in pts:
        try:
            got.add(bool(Eval({leaf: p}, I=s.I)(cond)))
        except Exception:
            return False
    return len(got) == 2


def mulp(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


class Ranges:
    def __init__(self, s):
        self.s, self.I, self.g = s, s.I, s.g
        self.assume = {}
        self.stored = []
        self.dyn = {}
        for e in s.events_all():
            if e.kind == 'dyncall' and e.d.get('value') is not None:
                self.dyn[e.value.args[1] if e.value.op == 'dyn' else e.value] = e
            if e.kind == 'setitem':
                self.stored.append(e)

    def of(self, n):
        self.assume, self.hit = {}, set()
        r = None
        for i in range(8):
            self.memo, self.busy, self.changed = {}, set(), False
            r = self.v(n)
            if not self.changed:
                break
            if i >= 3:
                for k in list(self.assume):
                    a = self.assume[k]
                    if k in self.grown and a is not None:
                        self.assume[k] = Iv(-INF if self.grown[k][0] else a.lo, INF if self.grown[k][1] else a.hi, a.ulo, a.uhi)
        return r if r is not None else TOP

    grown = {}

    def rec(self, n, f):
        """value of a node on a cycle: the assumption so far; re-evaluated until it is stable"""
        if n in self.busy:
            return self.assume.get(n)
        self.busy.add(n)
        r = f()
        self.busy.discard(n)
        old = self.assume.get(n)
        new = join(old, r) if old is not None else r
        if old is not None and r is not None:
            new = Iv(min(old.lo, r.lo), max(old.hi, r.hi), r.ulo, r.uhi)
        if new is not None and (old is None or (old.lo, old.hi) != (new.lo, new.hi)):
            if not isinstance(self.grown, dict) or self.grown is Ranges.grown:
                self.grown = {}
            if old is not None:
                self.grown[n] = (new.lo < old.lo, new.hi > old.hi)
            self.changed = True
        self.assume[n] = new
        return new

    def v(self, n):
        if not is_node(n):
            return None
        if n in self.memo:
            return self.memo[n]
        r = self.v0(n)
        if not self.busy:
            self.memo[n] = r
        return r

    def v0(self, n):
        op, a = n.op, n.args
        if op == 'const':
            if isinstance(a[0], (int, float)) and not isinstance(a[0], bool):
                return exact(a[0], a[0])
            return TOP
        if op == 'dyn':
            return self.draw(n)
        if op == 'nextval':
            return self.generator(a[0])
        if op == 'clip':
            x, lo, hi = self.v(a[0]), self.v(a[1]), self.v(a[2])
            if x is None:
                return None
            l = lo.lo if lo is not None else -INF
            h = hi.hi if hi is not None else INF
            lu = lo.ulo if lo is not None else None
            r = Iv(min(max(x.lo, l), h), max(min(x.hi, h), l))
            if x.ulo is not None and lo is not None and hi is not None and lo.ulo is not None and hi.uhi is not None:
                r.ulo, r.uhi = min(max(x.ulo, lo.ulo), hi.uhi), max(min(x.uhi, hi.uhi), lo.ulo)
            return r
        if op in ('maximum', 'minimum'):
            x, y = self.v(a[0]), self.v(a[1])
            if x is None or y is None:
                return None
            f = max if op == 'maximum' else min
            r = Iv(f(x.lo, y.lo), f(x.hi, y.hi))
            if x.ulo is not None and y.ulo is not None:
                r.ulo, r.uhi = f(x.ulo, y.ulo), f(x.uhi, y.uhi)
            return r
        if op in ('add', 'sub', 'mul'):
            x, y = self.v(a[0]), self.v(a[1])
            if x is None or y is None:
                return None
            if op == 'sub':
                y = Iv(-y.hi, -y.lo, None if y.uhi is None else -y.uhi, None if y.ulo is None else -y.ulo)
            indep = not (self.sources(a[0]) & self.sources(a[1]))
            cu = x.ulo is not None and y.ulo is not None and indep
            if op == 'mul':
                c = [mulp(p, q) for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
                r = Iv(min(c), max(c))
                if cu:
                    c = [mulp(p, q) for p in (x.ulo, x.uhi) for q in (y.ulo, y.uhi)]
                    r.ulo, r.uhi = min(c), max(c)
                return r
            r = Iv(x.lo + y.lo, x.hi + y.hi)
            if cu:
                r.ulo, r.uhi = x.ulo + y.ulo, x.uhi + y.uhi
            if r.lo != r.lo or r.hi != r.hi:
                return TOP
            return r
        if op == 'div':
            x, y = self.v(a[0]), self.v(a[1])
            if x is None or y is None:
                return None
            if y.lo > 0 or y.hi < 0:
                c = [p / q if abs(q) != INF else 0.0 for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
                r = Iv(min(c), max(c))
                if y.lo == y.hi and x.ulo is not None:
                    c = [p / y.lo for p in (x.ulo, x.uhi)]
                    r.ulo, r.uhi = min(c), max(c)
                return r
            return TOP
        if op == 'neg':
            x = self.v(a[0])
            return None if x is None else Iv(-x.hi, -x.lo, None if x.uhi is None else -x.uhi, None if x.ulo is None else -x.ulo)
        if op == 'abs':
            x = self.v(a[0])
            if x is None:
                return None
            lo = 0 if x.lo <= 0 <= x.hi else min(abs(x.lo), abs(x.hi))
            return Iv(lo, max(abs(x.lo), abs(x.hi)))
        if op == 'mod':
            y = self.v(a[1])
            if y is not None and y.lo == y.hi and y.lo > 0:
                return Iv(0, y.hi)
            return TOP
        if op in ('sin', 'cos'):
            return Iv(-1, 1)
        if op == 'gamma':
            x, y = self.v(a[1]), self.v(a[2])
            r = join(x, y)
            if x is not None and y is not None and r is not None and (x.ulo is not None or y.ulo is not None) and free(self.s, a[0]):
                # both alternatives happen
                u = [z for z in (x, y) if z.ulo is not None]
                r = Iv(r.lo, r.hi, min(z.ulo for z in u), max(z.uhi for z in u))
            return r
        if op in ('zeros',):
            return exact(0, 0)
        if op in ('ones',):
            return exact(1, 1)
        if op in ('full',) and len(a) > 1:
            return self.v(a[1])
        if op in ('asarray', 'copy', 'astype', 'reshape', 'ravel', 'squeeze', 'T', 'aslist', 'astuple', 'float', 'broadcast_to', 'nan_to_num', 'expand_dims', 'sort'):
            return self.v(a[0])
        if op == 'setitem':
            x, y = self.v(a[0]), self.v(a[2])
            m = self.masked(a[0], a[1], x, y)
            if m is not None:
                return m
            r = join(x, y)
            if r is not None and x is not None and x.ulo is not None and partial(a[1]):
                # entries that are not covered keep their values
                u = [z for z in (x, y) if z is not None and z.ulo is not None]
                return Iv(r.lo, r.hi, min(z.ulo for z in u), max(z.uhi for z in u))
            if r is not None and x is not None and x.ulo is not None and y is not None and y.ulo is not None:
                # both remain visible unless the item covers everything
                r = Iv(r.lo, r.hi)
                r.ulo, r.uhi = (y.ulo, y.uhi)
            elif r is not None and y is not None and y.ulo is not None:
                r = Iv(r.lo, r.hi, y.ulo, y.uhi)
            return r
        if op == 'fill':
            x = self.v(a[0])
            for z in a[-1:]:
                if is_node(z):
                    y = self.v(z)
                    x = y if x is None else Iv(min(x.lo, y.lo), max(x.hi, y.hi), y.ulo, y.uhi) if y is not None else x
            return x
        if op in ('mu', 'fin'):
            return self.rec(n, lambda: self.loopvar(n))
        if op == 'index':
            return self.item(n)
        if op in ('list', 'tuple', 'concat', 'hstack', 'vstack'):
            r = None
            xs = a[0].args if op in ('concat', 'hstack', 'vstack') and a and a[0].op in ('tuple', 'list') else a
            for z in xs:
                if is_node(z):
                    y = self.v(z)
                    r = y if r is None else Iv(min(r.lo, y.lo), max(r.hi, y.hi), None if r.ulo is None or y.ulo is None else min(r.ulo, y.ulo), None if r.uhi is None or y.uhi is None else max(r.uhi, y.uhi)) if y is not None else r
            return r if r is not None else TOP
        if op == 'map':
            return self.v(a[2])
        if op in ('max', 'min', 'mean'):
            x = self.v(a[0])
            return None if x is None else Iv(x.lo, x.hi)
        if op == 'linspace':
            x, y = self.v(a[0]), self.v(a[1])
            return join(x, y) if x is not None and y is not None else TOP
        return TOP

    def masked(self, base, mask, x, y):
        """x[x < c] = v and the like: no entry below c is left but v"""
        if x is None or y is None or not is_node(mask) or mask.op not in ('lt', 'le', 'gt', 'ge', 'not'):
            return None
        neg = mask.op == 'not'
        m = mask.args[0] if neg else mask
        if m.op not in ('lt', 'le', 'gt', 'ge'):
            return None
        p, q = m.args
        if p is base and self.num(q) is not None:
            c, small = self.num(q), m.op in ('lt', 'le')
        elif q is base and self.num(p) is not None:
            c, small = self.num(p), m.op in ('gt', 'ge')
        else:
            return None
        if neg:
            small = not small
        r = Iv(max(x.lo, c), max(x.hi, c)) if small else Iv(min(x.lo, c), min(x.hi, c))
        out = Iv(min(r.lo, y.lo), max(r.hi, y.hi))
        if x.ulo is not None and y.ulo is not None:
            out.ulo = min(max(x.ulo, c), y.ulo) if small else min(x.ulo, c)
            out.uhi = max(min(x.uhi, c), y.uhi) if not small else max(x.uhi, c)
        return out

    def loopvar(self, n):
        """join of the value before the loop and of the value after an iteration"""
        I, g = self.I, self.g
        L, name = n.args[0], n.args[1]
        init = n.args[2] if len(n.args) > 2 and is_node(n.args[2]) else None
        info = g.loops.get(L)
        if info is None:
            return TOP
        if n.op == 'fin':
            for m in g.nodes:
                if m.op == 'mu' and m.args[0] == L and m.args[1] == name:
                    r = self.v(m)
                    return None if r is None else Iv(r.lo, r.hi)
            return TOP
        x = self.v(I.deref(init, info['init'])) if init is not None else None
        b = info.get('back')
        y = None
        if b is not None:
            v = None
            if name in info['names']:
                v = b.env.get(name)
            else:
                for d in ('heap', 'content'):
                    for k in info[d]:
                        kn = 'heap:{}:{}'.format(k[0].id, k[1]) if d == 'heap' else 'content:{}'.format(k.id)
                        if kn == name:
                            v = getattr(b, d).get(k)
            if v is not None:
                v = I.deref(v, b)
                if v is not n:
                    y = self.v(v)
        for br in info.get('breaks') or []:
            pass
        if x is None and y is None:
            return None
        if y is None:
            return x if x is None else Iv(x.lo, x.hi, x.ulo, x.uhi)
        if x is None:
            return Iv(y.lo, y.hi)
        return Iv(min(x.lo, y.lo), max(x.hi, y.hi), x.ulo, x.uhi)

    def item(self, n):
        base = n.args[0]
        if self.is_dict(base):
            def f():
                r = None
                for e in self.stored:
                    if self.is_dict(e.target) or self.is_dict(e.d.get('base')):
                        y = self.v(e.val)
                        if y is not None:
                            u = [z for z in (r, y) if z is not None and z.ulo is not None]
                            u = min(u, key=lambda z: z.uhi - z.ulo) if u else None
                            r = Iv(min([y.lo] + [r.lo] * (r is not None)) if r is not None else y.lo, max(r.hi, y.hi) if r is not None else y.hi, u and u.ulo, u and u.uhi)
                return r
            return self.rec(self.g.raw('dictitem'), f)
        if base.op == 'aslist' and base.args[0].op == 'dictvalues':
            return self.item(self.g.raw('index', base.args[0].args[0], n.args[1]))
        x = self.v(base)
        return None if x is None else Iv(x.lo, x.hi, x.ulo, x.uhi)

    def is_dict(self, n):
        if not is_node(n):
            return False
        seen = set()
        while n.op in ('mu', 'fin', 'gamma'):
            if n in seen:
                return False
            seen.add(n)
            n = n.args[2] if n.op != 'gamma' else n.args[1]
            if not is_node(n):
                return False
        if n.op == 'ref':
            for e in self.I.g.loops.values():
                for k in ('init', 'start', 'back'):
                    st = e.get(k)
                    if st is not None and n in st.content:
                        c = st.content[n]
                        return c.op in ('dict', 'dictcomp') or self.g.kind(c) == 'dict'
        return n.op in ('dict', 'dictcomp') or self.g.kind(n) == 'dict'

    def sources(self, n):
        """random draws a value depends on"""
        out, seen, st = set(), set(), [n]
        while st:
            x = st.pop()
            if not is_node(x) or x in seen:
                continue
            seen.add(x)
            if x.op in ('dyn', 'nextval', 'mu', 'fin'):
                out.add(x)
            elif x.op == 'index' and self.is_dict(x.args[0]):
                out.add(('item', x.args[0]))
            else:
                st += x.args
        return out

    def num(self, n):
        return n.args[0] if is_node(n) and n.op == 'const' and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool) else None

    def draw(self, n):
        e = self.dyn.get(n.args[1])
        if e is None:
            return TOP
        vs, kw, name = list(e.vals), dict(e.kvals), e.name

        def arg(i, *names):
            for k in names:
                if k in kw:
                    return kw[k]
            return vs[i] if i < len(vs) else None
        if name == 'uniform' or name in ('suggest_uniform', 'suggest_float'):
            k = 1 if name.startswith('suggest') else 0
            lo, hi = arg(k, 'low'), arg(k + 1, 'high')
            a = 0 if lo is None and k == 0 else self.num(lo)
            b = 1 if hi is None and k == 0 else self.num(hi)
            if a is None or b is None:
                x, y = self.v(lo) if lo is not None else exact(0, 0), self.v(hi) if hi is not None else exact(1, 1)
                if x is None or y is None:
                    return None
                return Iv(x.lo, y.hi, x.ulo if y.uhi is not None else None, y.uhi if x.ulo is not None else None)
            return exact(min(a, b), max(a, b))
        if name in ('random', 'random_sample', 'rand', 'sample', 'random_raw'):
            return exact(0, 1)
        if name in ('normal', 'standard_normal', 'randn', 'gauss'):
            return exact(-INF, INF) if name != 'normal' else exact(-INF, INF)
        if name == 'beta':
            return exact(0, 1)
        return TOP

    def generator(self, n):
        """range of the values a generator of the package yields"""
        e = next((x for x in self.s.events_all() if x.kind == 'gen' and is_node(n) and n.op == 'gen' and x.func.qualname == n.args[0]), None)
        if e is None:
            return TOP
        I = self.I
        f = copy.copy(e.func)
        f.is_generator = False
        n0 = len(I.events)
        try:
            I.run(f, None, dict(e.args), State())
        except Unsupported:
            return TOP
        ys = [x for x in I.events[n0:] if x.kind == 'yield']
        r = None
        for y in ys:
            z = self.v(y.val)
            if z is None:
                return TOP
            r = z if r is None else join(r, z)
        self.yields = getattr(self, 'yields', {})
        self.yields[n] = [y.val for y in ys]
        del I.events[n0:]
        return r if r is not None else TOP


# ------------------------------------------------------------------------------------------------ lengths
class Lengths:
    """length terms a vector may have"""
    def __init__(self, s, ranges):
        self.s, self.I, self.g, self.R = s, s.I, s.g, ranges
        self.busy = set()

    def of(self, n):
        out = self.v(n)
        return out

    def v(self, n):
        """set of length terms; None in the set: unknown"""
        g = self.g
        if not is_node(n):
            return {None}
        if n in self.busy:
            return set()
        self.busy.add(n)
        try:
            return self.v0(n)
        finally:
            self.busy.discard(n)

    def scalar(self, n, d=0):
        """is this index a single number?"""
        if self.g.rank(n) == 0 or self.g.kind(n) == 'int' or n.op == 'const':
            return True
        if n.op == 'dyn':
            e = self.R.dyn.get(n.args[1])
            return e is not None and e.name in ('randint', 'integers', 'randrange', 'choice', 'suggest_int') and len(e.vals) <= 2 and 'size' not in e.kvals
        if n.op == 'index' and d < 4:
            return self.scalar(n.args[1], d + 1)
        return False

    def indices(self, n):
        """positions of the entries that meet a condition"""
        while n.op == 'index' and n.args[1].op == 'const':
            n = n.args[0]
        return n.op in ('where', 'nonzero', 'flatnonzero', 'argsort')

    def v0(self, n):
        g = self.g
        op, a = n.op, n.args
        if op == 'dyn':
            e = self.R.dyn.get(n.args[1])
            if e is None:
                return {None}
            k = {'uniform': 2, 'normal': 2, 'randint': 2, 'integers': 2, 'random': 0, 'random_sample': 0, 'rand': 0, 'randn': 0, 'standard_normal': 0, 'beta': 2, 'laplace': 2, 'choice': 1}.get(e.name)
            if k is None:
                return {None}
            x = e.kvals.get('size') if 'size' in e.kvals else (e.vals[k] if k < len(e.vals) else None)
            if x is None:
                return {None}
            if x.op == 'tuple' and len(x.args) == 1:
                x = x.args[0]
            return {x}
        if op == 'nextval':
            self.R.of(n)
            out = set()
            for y in getattr(self.R, 'yields', {}).get(a[0], []):
                out |= self.v(y)
            return out or {None}
        if op == 'gamma':
            x, y = self.v(a[1]), self.v(a[2])
            if len(x) == len(y) == 1 and x != y:
                p, q = next(iter(x)), next(iter(y))
                if is_node(p) and is_node(q):
                    return {g.mk('gamma', a[0], p, q)}
            return x | y
        if op in ('mu', 'fin'):
            if g.kind(n) in ('int', 'float') or g.rank(n) == 0:
                return {'scalar'}
            L, name = a[0], a[1]
            info = g.loops.get(L)
            out = set()
            if info is None:
                return {None}
            if is_node(a[2]):
                out |= self.v(self.I.deref(a[2], info['init']))
            b = info.get('back')
            if b is not None:
                v = b.env.get(name)
                if v is None:
                    for k in info['content']:
                        if 'content:{}'.format(k.id) == name:
                            v = b.content.get(k)
                if v is not None:
                    out |= self.v(self.I.deref(v, b))
            return out
        if op in ('setitem', 'fill', 'copy', 'asarray', 'astype', 'clip', 'neg', 'abs', 'nan_to_num', 'sqrt', 'sin', 'cos', 'exp', 'aslist', 'astuple', 'log', 'round', 'ravel', 'squeeze'):
            return self.v(a[0])
        if op in ('add', 'sub', 'mul', 'div', 'pow', 'mod', 'floordiv', 'maximum', 'minimum'):
            x, y = self.v(a[0]), self.v(a[1])
            out = (x | y) - {'scalar'}
            return out or ({'scalar'} if x or y else set())
        if op == 'index':
            if self.R.is_dict(a[0]):
                out = set()
                for e in self.R.stored:
                    if self.R.is_dict(e.target) or self.R.is_dict(e.d.get('base')):
                        out |= self.v(e.val)
                return out
            if a[1].op not in ('slice', 'tuple') and not self.scalar(a[1]) and (g.rank(a[1]) == 1 or a[1].op in ('ne', 'eq', 'lt', 'le', 'gt', 'ge', 'not', 'and', 'or', 'gamma') or self.indices(a[1])):
                return {g.raw('size', n)}
            if g.rank(n) == 1:
                return {g.dim(n, 0)}
            if g.rank(a[0]) == 1:
                return {'scalar'}
            if g.rank(a[0]) == 2 and g.rank(n) is None and a[1].op not in ('slice', 'tuple') and self.scalar(a[1]):
                return {g.dim(a[0], 1)}
            if a[0].op == 'aslist' and a[0].args[0].op == 'dictvalues':
                return self.v(g.raw('index', a[0].args[0].args[0], a[1]))
            return {None}
        if op in ('list', 'tuple'):
            return {g.const(len(a))}
        if g.kind(n) in ('int', 'float') or g.rank(n) == 0:
            return {'scalar'}
        if op == 'const':
            return {'scalar'}
        if g.rank(n) == 1:
            return {g.dim(n, 0)}
        if op in ('zeros', 'ones', 'full', 'empty', 'map', 'arange', 'linspace', 'tile'):
            return {g.dim(n, 0)}
        if op == 'call':
            return {None}
        return {None}


def shapes(s=None, terms=()):
    """matrices with their number of features, also at the numbers in the terms"""
    ds = [2, 3, 4, 7]
    if s is not None:
        for k in constants(s.g, [t for t in terms if is_node(t)])[:8]:
            if k == int(k) and 3 <= k <= 3000:
                ds += [int(k) - 1, int(k), int(k) + 1, int(k) + 2]
    for d in ds:
        if d < 2:
            continue
        yield np.zeros((5, d)), d
        r = np.random.default_rng(d)
        X = np.round(r.normal(size=(5, d)), 1)
        yield X, d
        X = X.copy()
        X[:, d - 1] = 0.5
        X[3] = X[0]
        X[3, 0] += 1
        yield X, d


def term_is(s, t, want):
    """does the length term equal want(d) for d features: True / False / None; all features counts tried"""
    n = 0
    g = s.g
    rows = [x for x in g.walk(t, set()) if x.op == 'index' and x.args[0] is s.X and x.args[1].op not in ('slice', 'tuple')]
    for X, d in shapes(s, [t]):
        for k in range(2 if rows else 1):
            leaves = {s.X: X, s.y: np.array([0., 1., 0., 1., 1.])}
            for i, x in enumerate(rows):
                leaves[x] = X[(3 * i + k) % 5] if s.kind == 'ndarray' else sparse.csr_matrix(X[[(3 * i + k) % 5]])
            try:
                v = Eval(leaves, I=s.I)(t)
            except (CantEval, BadValue):
                return None
            except Exception:
                return None
            n += 1
            if int(v) != want(d):
                return False
    return True if n else None


# ------------------------------------------------------------------------------------------------ rules
def solves(C):
    for c in optimizers(C):
        for k in ('ndarray', 'csc'):
            key = ('solve', c.name, k)
            if key not in C.cache:
                C.cache[key] = Solve(C, c, k)
            yield C.cache[key]


def loc_of(e):
    return e.loc


@rule('C23')
def vectors(R, tier):
    C = contexts()
    R.rules.append('interval and shape analysis of every vector that reaches the objective; loops by fixpoint with widening')
    if not optimizers(C):
        R.add('optimisers', 'unknown', None, 'no optimiser found')
    for s in solves(C):
        guarded(R, s.label, vector_rules, R, s)


def vector_rules(R, s):
    loc = (s.func.module.rel, s.func.node.lineno)
    if s.error:
        return R.add('{}: search'.format(s.label), 'unknown', loc, 'not analysed: ' + s.error)
    for q, f in s.I.funcs_seen.items():
        R.analysed.add(q)
    F = s.hypercube()
    if F is None:
        return R.add('{}: declared search space'.format(s.label), 'unknown', loc, 'not a constant')
    R.add('{}: declared search space'.format(s.label), 'proved', loc, 'constant {}'.format(F))
    want = (lambda d: d - 1) if F else (lambda d: d)
    rg = Ranges(s)
    ln = Lengths(s, rg)
    g = s.g
    wn = g.mk('sub', g.dim(s.X, 1), g.const(1)) if F else g.dim(s.X, 1)
    n = 0
    for k, e in enumerate(s.evaluations()):
        a = s.argument(e)
        if a is not None and a.op == 'param' and a.args[0].startswith('callback.'):
            continue                                  # the vector comes from the foreign search: its bounds are checked there
        n += 1
        where = loc_of(e)
        name = '{}: evaluation {}'.format(s.label, k + 1)
        if a is None:
            R.add(name + ': length', 'unknown', where, 'arguments of the call')
            continue
        st, why = 'proved', 'one entry per {}'.format('feature but one' if F else 'feature')
        for t in ln.of(a) or {None}:
            if t is wn:
                continue
            if t is None or t == 'scalar':
                st, why = ('unknown', 'length of the vector') if st == 'proved' else (st, why)
                continue
            r = term_is(s, t, want)
            if r is False:
                st, why = 'refuted', 'vector of length {} for a matrix X with dim(X, 1) features; the declared search space needs {}'.format(t, wn)
            elif r is None and st == 'proved':
                st, why = 'unknown', 'length {}'.format(t)
            elif r and st == 'proved':
                st = 'equal'
        R.add(name + ': length', st, where, why)
        if F:
            v = rg.of(a)
            if v.lo >= 0 and v.hi <= 1:
                R.add(name + ': range', 'proved', where, 'all entries in [{:g}, {:g}]'.format(v.lo, v.hi))
            elif v.ulo is not None and (v.ulo < 0 or v.uhi > 1):
                own = rg.sources(a)
                guard = any(c.op != 'loop' and own & rg.sources(c) for c, p in e.pc)
                R.add(name + ': range', 'unknown' if guard else 'refuted', where, 'entries range over [{:g}, {:g}], the declared search space is the unit hypercube'.format(v.ulo, v.uhi))
            else:
                R.add(name + ': range', 'unknown', where, 'bounds found: [{:g}, {:g}]'.format(v.lo, v.hi))
    n += foreign(R, s, F, want)
    R.add('{}: the objective is evaluated'.format(s.label), 'proved' if n else 'unknown', loc, '{} call sites'.format(n))
    polarity(R, s)
    keeps_state(R, s, 'C23')


def foreign(R, s, F, want):
    """searches by foreign solvers that take bounds"""
    n = 0
    for e in s.events_all():
        if e.kind != 'dyncall' or 'bounds' not in e.kvals:
            continue
        n += 1
        b = e.kvals['bounds']
        name = '{}: bounds of the foreign search'.format(s.label)
        res = None
        for X, d in shapes(s, [b]):
            try:
                v = Eval({s.X: X}, I=s.I)(b)
                v = np.asarray([[float(y) for y in x] for x in v], dtype=float)
            except Exception:
                res = None
                break
            ok = v.shape == (want(d), 2) and (not F or bool(np.all(v[:, 0] == 0) and np.all(v[:, 1] == 1)))
            if not ok:
                res = 'bounds {} for {} features'.format(v.tolist(), d)
                break
            res = True
        R.add(name, 'unknown' if res is None else 'equal' if res is True else 'refuted', e.loc, res if isinstance(res, str) else 'unit hypercube with one dimension less than there are features' if res else 'no interpretation')
        fn = e.kvals.get('func') or (e.vals[0] if e.vals else None)
        name = '{}: function minimised by the foreign search'.format(s.label)
        if fn is not None and fn.op == 'attr0' and fn.args[0] is s.ob and fn.args[1] == 'compute':
            R.add(name, 'proved', e.loc, 'the objective itself')
        else:
            increasing(R, s, fn, name, e)
    return n


def increasing(R, s, fn, name, e, sign=1):
    """a function of the package that wraps the objective must order points as the objective does"""
    hit = [(v, a) for ev, f, v, a in s.cbs if f is fn]
    if not hit or hit[0][0] is None:
        return R.add(name, 'unknown', e.loc, 'function not resolved')
    v = hit[0][0]
    comp = [x for x in s.g.walk(v, set()) if x.op == 'dyn' and x.args[0] == 'compute']
    if len(comp) != 1:
        return R.add(name, 'unknown', e.loc, 'no single evaluation in the function')
    if v is comp[0] and sign == 1:
        return R.add(name, 'proved', e.loc, 'returns the value of the objective')
    vals = []
    ks = [q * k + o for k in constants(s.g, [v])[:6] for q in (1, -1) for o in (-0.5, 0.0, 0.5)]
    pts = sorted({-1e4, -300.0, -3.5, -1.0, 0.5, 2.0, 300.0, 1e4} | set(ks))
    for x in pts:
        try:
            vals.append(float(Eval({comp[0]: x}, I=s.I)(v)))
        except Exception:
            return R.add(name, 'unknown', e.loc, 'no interpretation')
    up = all(b > a for a, b in zip(vals, vals[1:]))
    down = all(b < a for a, b in zip(vals, vals[1:]))
    if (up and sign == 1) or (down and sign == -1):
        return R.add(name, 'equal', e.loc, 'ordered as the objective')
    bad = [i for i, (a, b) in enumerate(zip(vals, vals[1:])) if (b < a if sign == 1 else b > a)]
    if bad:
        return R.add(name, 'refuted', e.loc, 'prefers higher values of the objective' if len(bad) == len(vals) - 1 else
                     'a point where the objective is {:g} counts as worse than one where it is {:g}'.format(pts[bad[0]], pts[bad[0] + 1]))
    return R.add(name, 'unknown', e.loc, 'some points count the same')


# ------------------------------------------------------------------------------------------------ polarity
def polarity(R, s):
    """lower values of the objective are better"""
    g = s.g
    for e in s.events_all():
        if e.kind == 'extcall' and e.name.endswith('create_study'):
            kw = e.d.get('kwargs') or {}
            d = kw.get('direction') or (e.vals[2] if len(e.vals) > 2 and False else None)
            d = d.args[0] if is_node(d) and d.op == 'const' else d
            study = [x for x in s.events_all() if x.kind == 'dyncall' and x.name == 'optimize']
            sign = 1
            if is_node(d):
                R.add('{}: direction of the foreign search'.format(s.label), 'unknown', e.loc, 'not a constant')
                continue
            if d == 'maximize':
                sign = -1
            fn = study[0].vals[0] if study and study[0].vals else None
            increasing(R, s, fn, '{}: function minimised by the foreign search'.format(s.label), e, sign)
    ob = Order(s)
    for where, ok, what in ob.verdicts():
        R.add('{}: {}'.format(s.label, what), {True: 'proved', None: 'unknown', False: 'refuted'}[ok], where, 'lower values are better' if ok else 'prefers higher values of the objective' if ok is False else '')


class Order:
    """which terms are values of the objective, and how they are ranked"""
    def __init__(self, s):
        self.s, self.g, self.I = s, s.g, s.I
        self.rg = Ranges(s)
        self.memo = {}

    def is_value(self, n, busy=None):
        """the term is a value of the objective (or infinity as start value)"""
        busy = busy or set()
        if not is_node(n) or n in busy:
            return None
        if n in self.memo:
            return self.memo[n]
        busy = busy | {n}
        r = False
        if n.op == 'dyn' and n.args[0] == 'compute' and n.args[2].op == 'attr0' and n.args[2].args[0] is self.s.ob:
            r = True
        elif n.op == 'const' and isinstance(n.args[0], float) and math.isinf(n.args[0]):
            r = True
        elif n.op in ('mu', 'fin'):
            parts = self.parts(n)
            vs = [self.is_value(p, busy) for p in parts]
            r = bool(vs) and all(v is not False for v in vs) and any(v for v in vs)
        elif n.op == 'gamma':
            vs = [self.is_value(p, busy) for p in n.args[1:]]
            r = all(v is not False for v in vs) and any(vs)
        elif n.op in ('index', 'min', 'max'):
            r = self.is_values(n.args[0], busy)
        if r is not None and len(busy) == 1:
            self.memo[n] = r
        return r

    def parts(self, n):
        L, name = n.args[0], n.args[1]
        info = self.g.loops.get(L)
        out = []
        if info is None:
            return out
        if is_node(n.args[2]):
            out.append(self.I.deref(n.args[2], info['init']))
        b = info.get('back')
        if b is not None and b.env.get(name) is not None:
            out.append(self.I.deref(b.env[name], b))
        return out

    def is_values(self, n, busy=frozenset()):
        """a collection of objective values"""
        if not is_node(n):
            return False
        if n.op in ('sort', 'aslist', 'astuple', 'asarray', 'dictkeys', 'reversed', 'sorted', 'rsort'):
            return self.is_values(n.args[0], busy)
        if n.op == 'index' and n.args[1].op == 'slice':
            return self.is_values(n.args[0], busy)
        if self.rg.is_dict(n):
            ks = [e for e in self.rg.stored if self.rg.is_dict(e.target) or self.rg.is_dict(e.d.get('base'))]
            return bool(ks) and all(self.is_value(e.index, set(busy)) is not False for e in ks)
        return False

    def verdicts(self):
        s, g = self.s, self.g
        out = {}
        roots = []
        for e in s.events_all():
            for v in e.d.values():
                if is_node(v):
                    roots.append((v, e.loc))
                elif isinstance(v, (list, tuple)):
                    roots += [(x, e.loc) for x in v if is_node(x)]
            for c, pol in e.pc:
                if is_node(c):
                    roots.append((c, e.loc))
        for L, info in g.loops.items():
            b = info.get('back')
            if b is not None and not info.get('comprehension'):
                for n in info['names']:
                    if b.env.get(n) is not None and is_node(b.env[n]):
                        roots.append((s.I.deref(b.env[n], b), None))
        seen = set()
        k = 0
        for r, loc in roots:
            for n in g.walk(r, seen):
                # which of several values is kept
                if n.op == 'index' and self.is_values(n.args[0]):
                    base, i = n.args
                    asc = self.ascending(base)
                    if asc is None:
                        continue
                    if i.op == 'slice':
                        lo, hi, st = i.args
                        if st.op == 'const' and st.args[0] in (None, 1):
                            head = lo.op == 'const' and lo.args[0] in (None, 0) and not (hi.op == 'const' and hi.args[0] is None) and not self.negative(hi)
                            tail = hi.op == 'const' and hi.args[0] is None and self.negative(lo)
                            if head or tail:
                                out[('keep', n)] = (n.loc or loc, head == asc, 'values kept')
                    elif g.num(i) in (0, -1):
                        out[('pick', n)] = (n.loc or loc, (g.num(i) == 0) == asc, 'value taken as the best')
                elif n.op in ('max', 'min') and self.is_values(n.args[0]):
                    out[('pick', n)] = (n.loc or loc, n.op == 'min', 'value taken as the best')
                elif n.op == 'gamma' and self.is_value(n.args[1]) and self.is_value(n.args[2]):
                    c = n.args[0]
                    v = self.choice(c, n.args[1], n.args[2])
                    if v is not None:
                        out[('gamma', n)] = (n.loc or loc, v, 'value kept of two')
        # a loop variable that is replaced
        for L, info in g.loops.items():
            b = info.get('back')
            if b is None or info.get('comprehension'):
                continue
            for name in sorted(info['names']):
                m, v = info['start'].env.get(name), b.env.get(name)
                if m is None or v is None or not is_node(m) or m.op != 'mu' or v is m:
                    continue
                v = s.I.deref(v, b)
                if self.is_value(m) and self.is_value(v) and v is not m and v.op == 'dyn':
                    for c, pol in (info.get("back_pc") or self.back_pc(info)):
                        r = self.choice(c if pol else g.mk('not', c), v, m)
                        if r is not None:
                            out[('loop', m)] = (m.loc, r, 'value that replaces the best one')
                # a counter that is reset when an improvement is found
                if v.op == 'gamma' and g.kind(m) in ('int', None):
                    c = v.args[0]
                    w = self.counter(v, m)
                    if w is not None:
                        out[('counter', m)] = (c.loc or m.loc, w, 'search continues after an improvement')
        return list(out.values())

    def back_pc(self, info):
        """conditions known at the back edge: guards of the exits that were not taken"""
        out = []
        for br in info.get('breaks') or []:
            pc = br[1] if isinstance(br, tuple) and len(br) > 1 else getattr(br, 'pc', None)
            if pc:
                own = [x for x in pc if x[0].op != 'loop'][-1:]
                for c, pol in own:
                    out.append((c, not pol))
        return out

    def negative(self, n):
        return n.op == 'neg' or (self.g.num(n) is not None and self.g.num(n) < 0) or n.op == 'mul' and any(self.g.num(a) is not None and self.g.num(a) < 0 for a in n.args)

    def ascending(self, n):
        """True / False: sorted ascending / descending;  None: not sorted"""
        if n.op in ('aslist', 'astuple', 'asarray'):
            return self.ascending(n.args[0])
        if n.op == 'sort':
            return True
        if n.op in ('rsort',):
            return False
        if n.op == 'reversed':
            a = self.ascending(n.args[0])
            return None if a is None else not a
        if n.op == 'index' and n.args[1].op == 'slice':
            a = self.ascending(n.args[0])
            st = n.args[1].args[2]
            if a is not None and st.op == 'const' and st.args[0] == -1:
                return not a
            return a
        return None

    def leaves(self, *ts):
        """maximal objective-valued subterms"""
        out = []
        st = list(ts)
        seen = set()
        while st:
            n = st.pop()
            if n in seen or not is_node(n):
                continue
            seen.add(n)
            if n.op in ('dyn', 'mu', 'fin', 'index', 'min', 'max') and self.is_value(n):
                out.append(n)
                continue
            st += [a for a in n.args if is_node(a)]
        return sorted(set(out), key=lambda n: n.id)

    def choice(self, c, a, b):
        """under condition c the value a is chosen, otherwise b: is it the lower one?"""
        lv = self.leaves(c, a, b)
        if not 2 <= len(lv) <= 3:
            return None
        r = np.random.default_rng(5)
        n = 0
        if not (self.leaves(c) and set(self.leaves(c)) <= set(self.leaves(a, b))):
            return None
        for i in range(40):
            v = {x: float(np.round(r.normal(), 3)) for x in lv}
            ev = Eval(v, I=self.I)
            try:
                t = bool(ev(c))
                x, y = float(ev(a)), float(ev(b))
            except Exception:
                return None
            if x == y:
                continue
            n += 1
            if t and not x < y:
                return False
            if not t and x < y and c.op in ('lt', 'le'):
                return False
        return True if n else None

    def counter(self, v, m):
        lv = self.leaves(v.args[0])
        if len(lv) != 2 or self.leaves(v.args[1]) or self.leaves(v.args[2]):
            return None
        # which of the two is the newer value: the one that is not a variable carried through the loop
        old = [x for x in lv if x.op in ('mu', 'fin') or x.op == 'gamma']
        new = [x for x in lv if x not in old]
        if len(old) != 1:
            # both taken from collections: the earlier one is the one computed first
            old, new = [min(lv, key=lambda n: n.id)], [max(lv, key=lambda n: n.id)]
        res = []
        for d in (-1.0, 1.0):
            ev = Eval({old[0]: 0.0, new[0]: d, m: 3}, I=self.I)
            try:
                res.append(float(ev(v)))
            except Exception:
                return None
        if res[0] == res[1]:
            return None
        return res[0] < res[1]


# ------------------------------------------------------------------------------------------------ state from one search to the next
def keeps_state(R, s, prop):
    g, I = s.g, s.I
    loc = (s.func.module.rel, s.func.node.lineno)
    name = '{}: no state is kept from one search to the next'.format(s.label)
    written = {}
    for e in s.events_all():
        if e.kind == 'setattr' and e.obj is s.o:
            written[e.name] = e
        elif e.kind in ('setitem', 'inplace', 'listmut') and is_node(e.target):
            t = e.target
            own = [a for (ob, a), v in s.before.heap.items() if ob is s.o and v is t]
            if own:
                written[own[0]] = e
        elif e.kind == 'setglobal':
            written['global'] = e
    if not written:
        return R.add(name, 'proved', loc, 'the search stores nothing in the optimiser')
    # is what an earlier search left read by the next one
    early = {}
    seen = set()
    for e in s.events_all():
        if e.kind == 'getattr' and e.obj is s.o and e.name in written and e.name not in seen:
            early.setdefault(e.name, e)
        if e.kind == 'setattr' and e.obj is s.o:
            seen.add(e.name)
    hot = [a for a in written if a in early or a == 'global' or written[a].kind != 'setattr']
    for a in sorted(written):
        if written[a].kind == 'setattr' and (s.o, a) not in s.before.heap:
            r = grown(s, a)
            if r:
                return R.add(name, 'refuted', written[a].loc, 'the points evaluated depend on self.{}, {}'.format(a, r))
    if not hot:
        return R.add(name, 'proved', loc, 'what the search stores is stored again before it is read')
    # does it matter for the points evaluated
    roots = []
    for e in s.evaluations():
        x = s.argument(e)
        if x is not None:
            roots.append(x)
        for c, p in e.pc:
            roots.append(c)
            if c.op == 'loop' and c.args[0] in g.loops and is_node(g.loops[c.args[0]].get('trip')):
                roots.append(g.loops[c.args[0]]['trip'])
    nodes = closure(s, roots)
    foreign_args = [x for e in s.events_all() if e.kind in ('dyncall', 'extcall') and e.d.get('receiver') is not s.ob
                    for x in list(e.d.get('vals') or []) + list((e.d.get('kvals') or e.d.get('kwargs') or {}).values()) + [e.d.get('star')] if is_node(x)]
    alike = []
    for a in hot:
        e = written[a]
        if e.kind == 'listmut' and e.how in ('setdefault', 'append', 'extend', 'insert', 'add') and any(data_dependent(s, x) for x in list(e.d.get('vals') or []) + [e.d.get('val')] if is_node(x)) \
                and e.target in closure(s, roots + foreign_args):
            return R.add(name, 'refuted', e.loc, 'self.{} is used by the search and keeps what an earlier search, of other data, has put into it'.format(a))
    for a in hot:
        v = early[a].value if a in early else None
        if v is None or v not in nodes:
            continue
        r = idempotent(s, a, v, nodes)
        if r is True:
            alike.append(a)
        elif r is not None:
            return R.add(name, 'refuted', written[a].loc, 'the points evaluated depend on self.{}, which an earlier search has stored: {}'.format(a, r))
    if len(alike) == len(hot):
        return R.add(name, 'equal', loc, 'what the search stores has the same effect on the next search')
    R.add(name, 'unknown', loc, 'stores and reads {}'.format(', '.join(sorted(hot))))


def data_dependent(s, f):
    """the value depends on the data, the objective or the course of the search"""
    return any(n in (s.X, s.y, s.ob) or n.op in ('extcall', 'mcall', 'mu', 'fin', 'dyncall', 'draw') for n in closure(s, [f]))


def grown(s, a):
    """an attribute that only a search has stored: what a search that finds it does with it"""
    r = Solve(s.C, s.cls, s.kind, left=a)
    if r.error:
        return None
    roots = []
    for e in r.events_all():
        if e.kind == 'setattr' and e.obj is r.o or e.kind == 'getattr' or e.d.get('name') in ('print', 'builtins.print', 'logging.debug', 'logging.info'):
            continue
        roots += [x for x in list(e.d.get('vals') or []) + list((e.d.get('kvals') or e.d.get('kwargs') or {}).values()) + [e.d.get('val')] if is_node(x)]
        for c, p in e.pc:
            roots.append(c)
            if c.op == 'loop' and c.args[0] in r.g.loops and is_node(r.g.loops[c.args[0]].get('trip')):
                roots.append(r.g.loops[c.args[0]]['trip'])
    done = set()
    while True:
        nodes = closure(r, roots)
        more = [x for x in nodes if x.op == 'mu' and x not in done]
        done.update(more)
        more = [r.I.deref(x.args[2], r.g.loops[x.args[0]]['init']) for x in more if x.args[0] in r.g.loops and is_node(x.args[2]) and r.g.loops[x.args[0]].get('init') is not None]
        if not more:
            break
        roots += more
    if r.left not in nodes:
        return None
    f = r.after.heap.get((r.o, a))
    if f is None:
        return None
    f = r.I.deref(f, r.after)
    if f is r.left:
        f = s.after.heap.get((s.o, a))
        f = None if f is None else s.I.deref(f, s.after)
        return 'which an earlier search, of other data, has stored' if f is not None and data_dependent(s, f) else None
    if r.left in closure(r, [f]):
        return 'which changes with every search'
    return 'which an earlier search, of other data, has stored' if data_dependent(r, f) else None


def idempotent(s, a, v, nodes):
    """True: a search that starts with what the first one stored in attribute a (which was v) evaluates the same points; a text: it does not; None: open"""
    f = s.after.heap.get((s.o, a))
    if f is None:
        return None
    g = s.g
    f = s.I.deref(f, s.after)
    seen, has = set(), set()

    def uses(n):
        if n in seen:
            return n in has
        seen.add(n)
        if n is v or any([uses(x) for x in n.args if is_node(x)]):
            has.add(n)
        return n in has
    dep = [n for n in nodes if uses(n) and n is not v or n is v]
    parents = {}
    for n in dep:
        for x in n.args:
            if is_node(x):
                parents.setdefault(x, []).append(n)
    bounds = [p for p in s.params.values()] if s.params else []
    r = np.random.default_rng(5)
    vals = [0, 1, 2, 5, 50, 5000, 200000, 0.95, 0.25, None]
    done = False
    for X in (np.zeros((5, 2)), np.ones((7, 3))):
        for val in vals:
            base = {s.X: X, s.y: np.array([0., 1., 0., 1., 1., 0., 1.])[:len(X)]}
            base.update({p: 3 for p in bounds})
            E1 = Eval(base | {v: val}, I=s.I)
            try:
                w = E1(f)
            except (CantEval, BadValue):
                continue
            if type(w) is type(val) and w == val:
                continue
            E2 = Eval(base | {v: w}, I=s.I)
            outs = {}
            for n in dep:
                try:
                    outs[n] = (E1(n), E2(n))
                except (CantEval, BadValue, RecursionError):
                    pass
            top = [n for n in outs if not any(q in outs for q in parents.get(n, []))]
            for n in top:
                x, y = outs[n]
                if n is v and any(q.op == 'is' for q in parents.get(n, [])) and len(parents.get(n, [])) == 1:
                    continue
                if not same(x, y):
                    return '{} then {} when the search starts with {}'.format(short(x), short(y), short(val))
            if top:
                done = True
    return True if done else None


# ------------------------------------------------------------------------------------------------ randomness
@rule('C12')
def randomness(R, tier):
    C = contexts()
    R.rules.append('taint of every random draw: origin and seed of its generator')
    for s in solves(C):
        guarded(R, s.label, draw_rules, R, s)


def draw_rules(R, s):
    loc = (s.func.module.rel, s.func.node.lineno)
    if s.error:
        return R.add('{}: randomness'.format(s.label), 'unknown', loc, 'not analysed: ' + s.error)
    for q in s.I.funcs_seen:
        R.analysed.add(q)
    g = s.g
    made = {}
    for e in s.I.events:
        if e.kind == 'extcall' and (e.name in NEW_RNG or e.name.endswith('Sampler')):
            made.setdefault(e.name, []).append(e)
    bad = False
    k = 0
    for e in s.I.events:
        if e.kind == 'extcall':
            if e.name in NEW_RNG or e.name.endswith('Sampler'):
                k += 1
                name = '{}: seed of {} at line {}'.format(s.label, e.name.split('.')[-1], e.loc[1])
                if e.seq < s.n_ctor and e.name in NEW_RNG:
                    R.add('{}: generator created for the search'.format(s.label), 'refuted', e.loc, 'the generator is created with the optimiser and shared by all its searches')
                    continue
                kw = e.d.get('kwargs') or {}
                seed = kw.get('seed') or (e.vals[0] if e.vals and not (e.name.endswith('Sampler') and not is_node(e.vals[0])) else None)
                st, why = seed_ok(s, seed)
                R.add(name, st, e.loc, why)
            elif e.name.startswith(('numpy.random.', 'random.')) or e.name.startswith(VOLATILE):
                if e.name in ('numpy.random.seed', 'random.seed'):
                    R.add('{}: no global random state'.format(s.label), 'refuted', e.loc, 'seeds the global generator: ' + e.name)
                    bad = True
                elif e.name.startswith(('numpy.random.', 'random.')) and e.name not in NEW_RNG:
                    R.add('{}: no global random state'.format(s.label), 'refuted', e.loc, 'draws from the global generator: ' + e.name)
                    bad = True
                else:
                    R.add('{}: nothing volatile'.format(s.label), 'unknown', e.loc, e.name)
        elif e.kind == 'dyncall':
            if e.name in DRAWS and is_node(e.receiver):
                k += 1
                r = e.receiver
                org = origins(s, r)
                name = '{}: generator of the draw at line {}'.format(s.label, e.loc[1])
                if org and all(o.op == 'call' and o.args[0] in NEW_RNG for o in org):
                    R.add(name, 'proved', e.loc, 'created in this search')
                elif any(module_generator(o) for o in org):
                    R.add(name, 'refuted', e.loc, 'the generator belongs to the module and is shared by all searches')
                else:
                    R.add(name, 'unknown', e.loc, 'origin {}'.format(', '.join(str(o)[:60] for o in org)))
            elif 'bounds' in e.kvals or (e.callee.op == 'param' and 'func' in e.kvals):
                k += 1
                seed = e.kvals.get('seed') or e.kvals.get('rng') or e.kvals.get('random_state')
                st, why = seed_ok(s, seed)
                R.add('{}: seed of the foreign search at line {}'.format(s.label, e.loc[1]), st, e.loc, why)
    if not bad:
        R.add('{}: no global random state'.format(s.label), 'proved', loc, '{} draws and generators examined'.format(k))
    keeps_state(R, s, 'C12')


def origins(s, n, seen=None):
    seen = set() if seen is None else seen
    if n in seen:
        return set()
    seen.add(n)
    if n.op == 'gamma':
        return origins(s, n.args[1], seen) | origins(s, n.args[2], seen)
    if n.op in ('mu', 'fin') and is_node(n.args[2]):
        return origins(s, n.args[2], seen)
    return {n}


def module_generator(n):
    return n.op == 'global' and isinstance(n.args[2], str) and any(x.split('.')[-1] + '(' in n.args[2] for x in NEW_RNG)


def seed_ok(s, seed):
    if seed is None:
        return 'refuted', 'no seed is given'
    if not is_node(seed):
        return 'unknown', str(seed)
    if seed.op == 'const':
        if seed.args[0] is None:
            return 'refuted', 'seeded with None: the seed comes from the system'
        return 'proved', 'constant seed'
    p = s.params.get('seed')
    if seed is p:
        return 'proved', 'the seed of the optimiser'
    nodes = list(s.g.walk(seed, set()))
    for x in nodes:
        nm = x.args[0] if x.op in ('call', 'ext') and isinstance(x.args[0], str) else ''
        if nm.startswith(VOLATILE) or nm.startswith(('numpy.random.', 'random.')):
            return 'refuted', 'the seed depends on ' + nm
        if salted(x):
            return 'refuted', 'the seed depends on the hash of a text or on an address, which differ between processes'
        if x.op == 'dyn':
            return 'unknown', 'seed drawn: {}'.format(x)
    if p is not None and p in nodes and any(x.op == 'const' and x.args[0] is None for x in nodes):
        n = 0
        for k in (0, 1, 2, 5, 42, 666, 12345, np.int64(0), np.int64(7)):
            try:
                v = Eval({p: k}, I=s.I)(seed)
            except Exception:
                break
            n += 1
            if v is None:
                return 'refuted', 'for the seed {!r} the generator is seeded by the system'.format(k)
        return ('equal', 'never None for a given seed') if n == 9 else ('unknown', 'the seed may be None')
    if p is not None and p not in nodes and any(x.op == 'param' and x.args[0].startswith('ctor_') for x in nodes):
        return 'unknown', 'seed computed from other parameters'
    return ('equal' if p in nodes else 'unknown'), 'seed computed: {}'.format(seed)


# ------------------------------------------------------------------------------------------------ randomness in the trees
TRAIN = ('ndarray', 'csc', 'csr')


@rule('C12')
def trees_deterministic(R, tier):
    C = contexts()
    R.rules.append('effects of training and of the queries: no draw from global state, no volatile value in anything stored, decided or returned, no accumulating module state; the default optimiser has a constant seed')
    for t in TREES:
        guarded(R, t, tree_rules, R, C, t)
    from .rules_obj import models
    for m in models(R, tier):
        if not m.error:
            guarded(R, m.label, evaluation_rules, R, C, m)


def evaluation_rules(R, C, m):
    v = copy.copy(m.c)
    v.own_events = m.events
    v.ctor_events = m.events[0].seq if m.events else 0
    v.value, v.state = m.value, m.state
    deterministic(R, C, v, m.label, (m.func.module.rel, m.func.node.lineno))


def tree_contexts(C, t):
    for k in TRAIN:
        yield 'training {}'.format(k), C.fit(t, k)
        yield 'training with pruning {}'.format(k), C.fit(t, k, prune=True)
        yield 'training of an inner node {}'.format(k), C.inner_fit(t, k)
    for o in ('ndarray', 'csc'):
        yield 'training with defaults {}'.format(o), C.fit(t, o, prior=False, optimizer=False)
    for m in ('predict', 'predict_proba', 'feature_importance', 'depth_and_leaves', 'prediction_paths', 'get_depth', 'get_n_leaves'):
        f, _ = C.P.cls(t).find(m)
        if isinstance(f, Func) and not f.is_abstract:
            for st in ('leaf', 'inner'):
                yield '{} on {}'.format(m, st), C.query(t, m, st, 'ndarray')


def tree_rules(R, C, t):
    opts = optimizers(C)
    for label, c in tree_contexts(C, t):
        name = '{} {}'.format(t, label)
        loc = (c.func.module.rel, c.func.node.lineno) if getattr(c, 'func', None) is not None else None
        if c.error:
            R.add(name, 'unknown', loc, c.error)
            continue
        for q in c.I.funcs_seen:
            R.analysed.add(q)
        deterministic(R, C, c, name, loc)
        for e in c.evs('icall'):
            if e.func.name == '__init__' and e.func.cls in opts:
                ps = [p for p in e.vals if p == 'seed']
                for p in ps:
                    st, why = seed_const(c, e.vals[p])
                    R.add('{}: seed of the default optimiser'.format(name), st, e.loc, why)


def seed_const(c, n):
    if n.op == 'const':
        return ('refuted', 'the default optimiser is not seeded') if n.args[0] is None else ('proved', 'constant {}'.format(n.args[0]))
    return 'unknown', 'seed {}'.format(str(n)[:80])


def closure(c, roots):
    """all nodes a value depends on, loops included"""
    g, I = c.g, c.I
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st.extend(x)
            continue
        if not is_node(x) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
        if x.op in ('mu', 'fin'):
            info = g.loops.get(x.args[0])
            if info is None:
                continue
            b = info.get('back')
            if b is None:
                continue
            v = b.env.get(x.args[1])
            if v is not None:
                st.append(I.deref(v, b))
            for k in info['content']:
                if 'content:{}'.format(k.id) == x.args[1] and b.content.get(k) is not None:
                    st.append(I.deref(b.content[k], b))
            for k in info['heap']:
                if 'heap:{}:{}'.format(k[0].id, k[1]) == x.args[1] and b.heap.get(k) is not None:
                    st.append(I.deref(b.heap[k], b))
    return seen


def results(c):
    """terms that training stores, decides by, hands to children and to the optimiser, or that a query returns"""
    out = []
    start = getattr(c, 'ctor_events', 0)
    for e in c.I.events:
        if e.seq < start:
            continue
        if e.kind == 'setattr' and is_node(e.value):
            out += [e.value] + [x for x, p in e.pc]
        elif e.kind in ('rcall', 'dyncall', 'ocall'):
            vs = e.vals.values() if isinstance(e.vals, dict) else e.vals
            out += list(vs) + list((e.d.get('kvals') or {}).values()) + [x for x, p in e.pc]
        elif e.kind == 'setitem':
            out += [x for x in (e.val, e.index) if is_node(x)]
    if is_node(c.value):
        out.append(c.I.deref(c.value, c.state) if c.state is not None else c.value)
    return [x for x in out if is_node(x)]


def salted(x):
    """hash of a text (salted in each process), or address of an object"""
    if not (is_node(x) and x.op == 'call' and x.args[0] in ('hash', 'builtins.hash', 'id', 'builtins.id')):
        return False
    if x.args[0].endswith('id'):
        return True
    a = x.args[-1]
    return is_node(a) and (a.op == 'const' and isinstance(a.args[0], (str, bytes)) or a.op in ('str', 'format', 'fmt', 'repr', 'join'))


def volatile_name(n):
    nm = n.args[0] if n.op in ('call', 'ext', 'extm') and n.args and isinstance(n.args[0], str) else ''
    return nm


def deterministic(R, C, c, name, loc):
    hot = None

    def flows(pred):
        nonlocal hot
        if hot is None:
            hot = closure(c, results(c))
        return any(pred(x) for x in hot)
    start = getattr(c, 'ctor_events', 0)
    found = 0
    events = getattr(c, 'own_events', c.I.events)
    for e in events:
        if e.kind == 'extcall':
            nm = e.name
            if nm in NEW_RNG:
                kw = e.d.get('kwargs') or {}
                seed = kw.get('seed') or (e.vals[0] if e.vals else None)
                found += 1
                if seed is None or is_node(seed) and seed.op == 'const' and seed.args[0] is None:
                    R.add('{}: seed of the generator'.format(name), 'refuted', e.loc, 'the generator {} is seeded by the system'.format(nm))
                elif not (is_node(seed) and seed.op == 'const'):
                    R.add('{}: seed of the generator'.format(name), 'unknown', e.loc, str(seed)[:80])
            elif nm in ('numpy.random.seed', 'random.seed', 'numpy.random.set_state'):
                found += 1
                R.add('{}: no global random state'.format(name), 'refuted', e.loc, 'sets the global random state: ' + nm)
            elif nm.startswith(('numpy.random.', 'random.')) and nm.split('.')[-1] in DRAWS or nm.startswith(VOLATILE):
                found += 1
                hit = flows(lambda x: volatile_name(x) == nm)
                if nm == 'builtins.hash' and flows(salted):
                    R.add('{}: nothing volatile'.format(name), 'refuted', e.loc, 'the hash of a text reaches what is stored, decided or returned')
                elif nm.startswith('builtins.'):
                    R.add('{}: nothing volatile'.format(name), 'unknown', e.loc, nm)
                else:
                    R.add('{}: nothing volatile'.format(name), 'refuted' if hit else 'unknown', e.loc, '{} reaches what is stored, decided or returned'.format(nm) if hit else nm)
        elif e.kind == 'dyncall' and e.name in DRAWS and is_node(e.receiver):
            for o in origins(c, e.receiver):
                if module_generator(o):
                    found += 1
                    R.add('{}: generator'.format(name), 'refuted', e.loc, 'the generator belongs to the module: its state depends on earlier activity')
        elif e.kind in ('setitem', 'setglobal') and e.seq >= start:
            if e.kind == 'setglobal':
                val, own = e.value, lambda x, e=e: x.op == 'global' and x.args[1] == e.name
            else:
                t = e.target
                if not (is_node(t) and t.op == 'global'):
                    continue
                val, own = e.val, lambda x, t=t: x is t
            found += 1
            grows = is_node(val) and any(own(x) for x in c.g.walk(val)) and val.op in ('add', 'sub', 'mul', 'mod', 'not', 'xor', 'gamma')
            if grows and flows(own):
                R.add('{}: no module state'.format(name), 'refuted', e.loc, 'a value of the module is updated by every training and reaches what is stored, decided or returned')
            else:
                R.add('{}: no module state'.format(name), 'unknown', e.loc, 'a value of the module is written')
    R.add('{}: sources of randomness'.format(name), 'proved' if not found else 'equal', loc, '{} events examined, {} of them volatile'.format(len(events), found))
