"""Summaries of the mapping of hypercube points to the sphere for given numbers of dimensions, and an abstract domain for the coordinates of the points: every coordinate is a term over the
coordinates of the hypercube points with the set of coordinates it depends on, an interval and a normal form (a generalised polynomial over u, cos and roots), in which the
sum of squares of a point on the sphere is the constant 1."""
import math

import numpy as np

from .graph import is_node
from .interp import Interp, State, Unsupported
from .termeval import BadValue, CantEval, Eval


def summary(C, f, D, rank, half):
    key = ('sphere', f.qualname, D, rank, half)

    def build(c):
        I = Interp(C.P, opaque={}, child_attrs=(), tree_cls=C.P.cls('HyperplaneClassificationTree'))
        c.I, c.g = I, I.g
        g = I.g
        c.points = g.param('points', kind='ndarray', rank=rank, dtype='float64', nonnull=True)
        g.set_fact(c.points, shape=(D,) if rank == 1 else (None, D))
        ps = [a.arg for a in f.node.args.args]
        c.func = f
        c.D, c.rank, c.half = D, rank, half
        c.state, c.raw = I.run(f, None, {ps[0]: c.points, ps[1]: g.const(half)}, State())
        if c.state is None:
            raise Unsupported('never returns')
        c.value = I.deref(c.raw, c.state)
    return C.get(key, build)


# ---------------------------------------------------------------- generalised polynomials: {((atom, exponent), ...): coefficient}
EPS = 1e-12


def p_const(c):
    return {(): float(c)} if abs(c) > EPS else {}


def p_key(p):
    return tuple(sorted(((m, round(c, 9)) for m, c in p.items()), key=repr))


def p_add(p, q, s=1.0):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0.0) + s * c
    return {m: c for m, c in r.items() if abs(c) > EPS}


class TooBig(Exception):
    pass


def p_mul(p, q):
    if len(p) * len(q) > 4000:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            r = p_add(r, m_mul(m1, m2), c1 * c2)
    return r


ROOTS = {}                                              # ('root', key) -> the polynomial under the root


def m_mul(m1, m2):
    """product of two monomials: exponents add; roots and sines are reduced"""
    e = dict(m1)
    for a, x in m2:
        e[a] = e.get(a, 0.0) + x
    out = {}
    extra = None
    for a, x in e.items():
        x = round(x, 9)
        if abs(x) < 1e-9:
            continue
        if a[0] == 'root' and x >= 1 - 1e-9:
            k = int(math.floor(x + 1e-9))
            for _ in range(k):
                extra = ROOTS[a] if extra is None else p_mul(extra, ROOTS[a])
            x = round(x - k, 9)
            if abs(x) < 1e-9:
                continue
        if a[0] == 'root' and x <= -1 + 1e-9 and len(ROOTS[a]) == 1:
            pass
        if a[0] == 'sin' and x >= 2 - 1e-9 and abs(x - round(x)) < 1e-9:
            k = int(x) // 2
            q = {(): 1.0, ((('cos', a[1]), 2.0),): -1.0}
            for _ in range(k):
                extra = q if extra is None else p_mul(extra, q)
            x = float(int(x) % 2)
            if x == 0:
                continue
        out[a] = x
    m = tuple(sorted(out.items(), key=repr))
    r = {m: 1.0}
    return r if extra is None else p_mul(r, extra)


def p_pow(p, x):
    """p ** x; only for a base that is not negative when x is no integer"""
    if abs(x - round(x)) < 1e-9 and 0 <= x <= 4:
        r = p_const(1)
        for _ in range(int(round(x))):
            r = p_mul(r, p)
        return r
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(nonneg(a) for a, e in m):
            r = p_const(c ** x)
            for a, e in m:
                r = p_mul(r, m_mul((), ((a, e * x),)))
            return r
    a = ('root', p_key(p))
    ROOTS[a] = p
    return m_mul((), ((a, x),))


def nonneg(a):
    return a[0] in ('u', 'root', 'abs')


def atom_range(a):
    if a[0] == 'u':
        return 0.0, 1.0
    if a[0] in ('cos', 'sin'):
        return -1.0, 1.0
    if a[0] == 'root':
        lo, hi = p_range(ROOTS[a])
        return max(lo, 0.0), max(hi, 0.0)
    return -math.inf, math.inf


def p_range(p):
    lo = hi = 0.0
    for m, c in p.items():
        a, b = 1.0, 1.0
        for at, e in m:
            a, b = i_mul((a, b), i_pow(atom_range(at), e))
        lo += min(c * a, c * b)
        hi += max(c * a, c * b)
    return lo, hi


# ---------------------------------------------------------------- intervals
def i_mul(x, y):
    v = [0.0 if 0.0 in (a, b) else a * b for a in x for b in y]
    return min(v), max(v)


def i_pow(x, e):
    lo, hi = x
    if abs(e - round(e)) < 1e-9:
        e = int(round(e))
        if e == 0:
            return 1.0, 1.0
        if e < 0:
            return i_div((1.0, 1.0), i_pow(x, -e))
        v = [lo ** e if abs(lo) < math.inf else (math.inf if e % 2 == 0 or lo > 0 else -math.inf), hi ** e if abs(hi) < math.inf else (math.inf if e % 2 == 0 or hi > 0 else -math.inf)]
        if e % 2 == 0:
            return (0.0 if lo <= 0 <= hi else min(v)), max(v)
        return v[0], v[1]
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)
    if e < 0:
        return i_div((1.0, 1.0), (lo ** -e, hi ** -e))
    return lo ** e, hi ** e


def i_div(x, y):
    if y[0] > 0 or y[1] < 0:
        return i_mul(x, (1 / y[1], 1 / y[0]))
    if y[0] >= 0:
        return (0.0 if x[0] >= 0 else -math.inf), (0.0 if x[1] <= 0 else math.inf)
    return -math.inf, math.inf


def i_cos(x):
    lo, hi = x
    if not (abs(lo) < 1e6 and abs(hi) < 1e6) or hi - lo >= 2 * math.pi:
        return -1.0, 1.0
    v = [math.cos(lo), math.cos(hi)]
    k = math.ceil(lo / math.pi)
    while k * math.pi <= hi:
        v.append(1.0 if k % 2 == 0 else -1.0)
        k += 1
    return min(v), max(v)


# ---------------------------------------------------------------- abstract numbers
class Elem:
    """an abstract real number: a term over the coordinates u[i, j] of the points"""
    __slots__ = ('op', 'args', 'deps', 'lo', 'hi', '_poly', 'key')

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._poly = None
        self.key = (op,) + tuple(a.key if isinstance(a, Elem) else a for a in args)
        es = [a for a in args if isinstance(a, Elem)]
        self.deps = frozenset([args]) if op == 'u' else frozenset().union(*[e.deps for e in es]) if es else frozenset()
        R = [(a.lo, a.hi) if isinstance(a, Elem) else (a, a) for a in args] if op not in ('u', 'const') else None
        self.lo, self.hi = self.interval(op, args, R)
        if self.lo != self.lo or self.hi != self.hi:
            self.lo, self.hi = -math.inf, math.inf

    @staticmethod
    def interval(op, args, R):
        if op == 'u':
            return 0.0, 1.0
        if op == 'const':
            return args[0], args[0]
        x = R[0]
        if op == 'add':
            return x[0] + R[1][0], x[1] + R[1][1]
        if op == 'mul':
            if args[0] is args[1]:
                return i_pow(x, 2)
            return i_mul(x, R[1])
        if op == 'neg':
            return -x[1], -x[0]
        if op == 'div':
            return i_div(x, R[1])
        if op == 'pow':
            return i_pow(x, args[1]) if not isinstance(args[1], Elem) else (-math.inf, math.inf)
        if op == 'sqrt':
            return math.sqrt(max(x[0], 0.0)), math.sqrt(max(x[1], 0.0))
        if op == 'max':
            return max(x[0], R[1][0]), max(x[1], R[1][1])
        if op == 'min':
            return min(x[0], R[1][0]), min(x[1], R[1][1])
        if op == 'abs':
            return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))), max(abs(x[0]), abs(x[1]))
        if op == 'cos':
            return i_cos(x)
        if op == 'sin':
            return i_cos((x[0] - math.pi / 2, x[1] - math.pi / 2))
        if op == 'arccos':
            return math.acos(min(1.0, max(-1.0, x[1]))), math.acos(min(1.0, max(-1.0, x[0])))
        if op == 'arcsin':
            return math.asin(min(1.0, max(-1.0, x[0]))), math.asin(min(1.0, max(-1.0, x[1])))
        if op == 'exp':
            return math.exp(min(x[0], 700)), math.exp(min(x[1], 700))
        if op == 'log':
            return (math.log(x[0]) if x[0] > 0 else -math.inf), (math.log(x[1]) if x[1] > 0 else -math.inf)
        return -math.inf, math.inf

    def poly(self):
        if self._poly is None:
            self._poly = self.build()
        return self._poly

    def build(self):
        op, a = self.op, self.args
        P = lambda i: a[i].poly() if isinstance(a[i], Elem) else p_const(a[i])
        if op == 'const':
            return p_const(a[0])
        if op == 'u':
            return {((('u',) + a, 1.0),): 1.0}
        if op == 'add':
            return p_add(P(0), P(1))
        if op == 'neg':
            return p_add({}, P(0), -1.0)
        if op == 'mul':
            return p_mul(P(0), P(1))
        if op == 'div':
            q = P(1)
            if len(q) == 1:
                (m, c), = q.items()
                return p_mul(P(0), p_mul(p_const(1 / c), m_mul((), tuple((x, -e) for x, e in m))))
            r = ('inv', p_key(q))
            return p_mul(P(0), {((r, 1.0),): 1.0})
        if op == 'pow' and not isinstance(a[1], Elem):
            return p_pow(P(0), a[1])
        if op == 'sqrt':
            return p_pow(P(0), 0.5)
        if op in ('max', 'min'):
            for i in (0, 1):
                d = p_add(P(i), P(1 - i), -1.0)
                lo, hi = p_range(d)
                if op == 'max' and lo >= -EPS or op == 'min' and hi <= EPS:
                    return P(i)
            return {(((op,) + tuple(p_key(P(i)) for i in (0, 1)), 1.0),): 1.0}
        if op == 'abs':
            p = P(0)
            lo, hi = p_range(p)
            if lo >= -EPS:
                return p
            if hi <= EPS:
                return p_add({}, p, -1.0)
        if op in ('cos', 'sin') and isinstance(a[0], Elem) and a[0].op in ('arccos', 'arcsin'):
            x = a[0].args[0]
            p = x.poly() if isinstance(x, Elem) else p_const(x)
            if (op == 'cos') == (a[0].op == 'arccos'):
                return p
            return p_pow(p_add(p_const(1), p_mul(p, p), -1.0), 0.5)
        return {(((op,) + tuple(p_key(P(i)) for i in range(len(a))), 1.0),): 1.0}

    # ---- arithmetic
    def __add__(self, o):
        return mk('add', self, o)

    def __radd__(self, o):
        return mk('add', o, self)

    def __sub__(self, o):
        return mk('add', self, mk('neg', o))

    def __rsub__(self, o):
        return mk('add', o, mk('neg', self))

    def __mul__(self, o):
        return mk('mul', self, o)

    def __rmul__(self, o):
        return mk('mul', o, self)

    def __truediv__(self, o):
        return mk('div', self, o)

    def __rtruediv__(self, o):
        return mk('div', o, self)

    def __pow__(self, o):
        return mk('pow', self, o)

    def __neg__(self):
        return mk('neg', self)

    def __abs__(self):
        return mk('abs', self)

    def __lt__(self, o):
        raise CantEval('comparison of abstract numbers')
    __le__ = __gt__ = __ge__ = __lt__

    def __bool__(self):
        raise CantEval('truth of an abstract number')

    def __eq__(self, o):
        raise CantEval('comparison of abstract numbers')

    def __hash__(self):
        return hash(self.key)


def mk(op, *args):
    args = tuple(a if isinstance(a, Elem) else float(a) for a in args)
    if not any(isinstance(a, Elem) for a in args):
        x = [float(a) for a in args]
        try:
            r = {'add': lambda: x[0] + x[1], 'mul': lambda: x[0] * x[1], 'neg': lambda: -x[0], 'div': lambda: x[0] / x[1], 'pow': lambda: x[0] ** x[1], 'sqrt': lambda: math.sqrt(x[0]),
                 'max': lambda: max(x), 'min': lambda: min(x), 'abs': lambda: abs(x[0]), 'cos': lambda: math.cos(x[0]), 'sin': lambda: math.sin(x[0]), 'arccos': lambda: math.acos(x[0]),
                 'arcsin': lambda: math.asin(x[0]), 'exp': lambda: math.exp(x[0]), 'log': lambda: math.log(x[0])}[op]()
        except (KeyError, ValueError, ZeroDivisionError):
            raise CantEval(op)
        return float(r)
    if op == 'mul':
        if args[0] == 0.0 if not isinstance(args[0], Elem) else False:
            return 0.0
        if args[1] == 0.0 if not isinstance(args[1], Elem) else False:
            return 0.0
    return Elem(op, args)


UNARY = {'neg', 'abs', 'sqrt', 'cos', 'sin', 'arccos', 'arcsin', 'exp', 'log'}
BINARY = {'maximum': 'max', 'minimum': 'min', 'max2': 'max', 'min2': 'min'}


def vec(f, *xs):
    r = np.frompyfunc(f, len(xs), 1)(*xs)
    return r


class Abstract(Eval):
    """evaluates array terms whose elements are abstract numbers"""
    def sub(self, extra):
        lv = dict(self.leaves)
        lv.update(extra)
        e = Abstract(lv, self.opfun, self.I)
        return e

    def _ev(self, n, env):
        op, a = n.op, n.args
        E = lambda x: self.ev(x, env)
        if op in ('zeros', 'ones', 'empty', 'full'):
            if len(a) > 1 and is_node(a[-1]) and E(a[-1]) not in ('float64', 'object', None):
                raise CantEval('element type')
            r = np.empty(E(a[0]), dtype=object)
            r[...] = 0.0 if op == 'zeros' else 1.0 if op == 'ones' else E(a[1]) if op == 'full' else None
            return r
        if op in UNARY:
            v = E(a[0])
            return vec(lambda x: mk(op, x), v) if isinstance(v, np.ndarray) else mk(op, v) if isinstance(v, Elem) else super()._ev(n, env)
        if op in BINARY:
            x, y = E(a[0]), E(a[1])
            return vec(lambda p, q: mk(BINARY[op], p, q), x, y)
        if op == 'clip':
            x, lo, hi = [E(v) for v in a[:3]]
            return vec(lambda p, q, r: mk('min', mk('max', p, q), r), x, lo, hi)
        if op == 'div':
            return vec(lambda p, q: mk('div', p, q), E(a[0]), E(a[1]))
        if op == 'pow':
            x, y = E(a[0]), E(a[1])
            return vec(lambda p, q: mk('pow', p, q), x, y)
        if op == 'norm':
            v = np.asarray(E(a[0]), dtype=object)
            ax = E(a[1]) if len(a) > 1 else None
            if len(a) > 2 and E(a[2]) not in (None, False):
                raise CantEval('norm')
            if ax is None:
                v, ax = v.ravel(), 0
            return vec(lambda x: mk('sqrt', x), self.add_up(vec(lambda x: mk('mul', x, x), v), ax))
        if op == 'sum':
            v = np.asarray(E(a[0]), dtype=object)
            ax = E(a[1]) if len(a) > 1 else None
            if ax is None:
                v, ax = v.ravel(), 0
            return self.add_up(v, ax)
        if op == 'setitem':
            v = np.array(E(a[0]), dtype=object)
            v[E(a[1])] = E(a[2])
            return v
        if op in ('lt', 'le', 'eq', 'where', 'cumsum', 'argsort', 'sort', 'max', 'min', 'prod', 'mean'):
            x = E(a[0])
            if isinstance(x, np.ndarray) and x.dtype == object:
                raise CantEval(op)
        return super()._ev(n, env)

    @staticmethod
    def add_up(v, ax):
        if v.shape[ax] == 0:
            return np.zeros([d for i, d in enumerate(v.shape) if i != ax % v.ndim], dtype=object)
        r = v.take(0, axis=ax)
        for i in range(1, v.shape[ax]):
            w = v.take(i, axis=ax)
            r = vec(lambda p, q: mk('add', p, q), r, w) if isinstance(r, np.ndarray) else mk('add', r, w)
        return r


def abstract_points(N, D, rank):
    if rank == 1:
        r = np.empty(D, dtype=object)
        for j in range(D):
            r[j] = Elem('u', (0, j))
        return r
    r = np.empty((N, D), dtype=object)
    for i in range(N):
        for j in range(D):
            r[i, j] = Elem('u', (i, j))
    return r


def as_rows(v, N, D):
    """the result as N vectors of D + 1 coordinates; None: another shape. A single point may come back as a plain vector"""
    v = np.asarray(v)
    if v.shape == (N, D + 1):
        return v
    if N == 1 and v.shape == (D + 1,):
        return v.reshape(1, -1)
    return None
