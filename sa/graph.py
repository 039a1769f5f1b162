"""Hash-consed value graph with simplifying constructors (global value numbering)."""
import numbers

VIEW_OPS = {'T', 'reshape', 'squeeze', 'expand_dims', 'broadcast_to', 'ravel', 'asarray', 'values', 'diagonal', 'swapaxes'}


class Node:
    __slots__ = ('id', 'op', 'args', 'loc', '_kind', '_rank', 'g')

    def __repr__(self):
        return show(self)

    def __hash__(self):              # creation order, not the address: runs are repeatable
        return self.id


def show(n, depth=6):
    if not isinstance(n, Node):
        return repr(n) if not isinstance(n, tuple) else '(' + ','.join(show(x, depth) for x in n) + ')'
    if n.op == 'const':
        return repr(n.args[0])
    if n.op in ('param', 'ext', 'undef'):
        return str(n.args[0])
    if depth <= 0:
        return '…'
    if n.op == 'attr0':
        return '{}.{}{}'.format(show(n.args[0], depth - 1), n.args[1], '' if not n.args[2] else '@%s' % (n.args[2],))
    if n.op == 'new':
        return 'new {}#{}'.format(n.args[0].name, n.args[1])
    if n.op == 'ref':
        return 'ref{}'.format(n.args[0])
    return '{}({})'.format(n.op, ', '.join(show(a, depth - 1) for a in n.args))


def is_node(x):
    return isinstance(x, Node)


class Graph:
    def __init__(self):
        self.table = {}
        self.nodes = []
        self.facts = {}          # node id -> dict(kind=, rank=)
        self.cur_loc = None
        self.loops = {}
        self.n_uid = 0
        self.assume = []         # list of (cond node, polarity) holding everywhere in this context
        self.decider = None

    def uid(self):
        self.n_uid += 1
        return self.n_uid

    # -- raw construction
    def raw(self, op, *args):
        key = (op,) + tuple(('n', a.id) if isinstance(a, Node) else ('c', type(a).__name__, a) if not isinstance(a, tuple) else ('t', tuple(('n', x.id) if isinstance(x, Node) else ('c', type(x).__name__, x) for x in a)) for a in args)
        n = self.table.get(key)
        if n is None:
            n = Node()
            n.id = len(self.nodes)
            n.op = op
            n.args = args
            n.loc = self.cur_loc
            n._kind = n._rank = None
            n.g = self
            self.nodes.append(n)
            self.table[key] = n
        return n

    def const(self, v):
        return self.raw('const', v)

    @property
    def none(self):
        return self.const(None)

    @property
    def true(self):
        return self.const(True)

    @property
    def false(self):
        return self.const(False)

    def param(self, name, kind=None, rank=None, **facts):
        n = self.raw('param', name)
        f = self.facts.setdefault(n.id, {})
        if kind is not None:
            f['kind'] = kind
        if rank is not None:
            f['rank'] = rank
        f.update(facts)
        return n

    def set_fact(self, n, **facts):
        self.facts.setdefault(n.id, {}).update(facts)
        n._kind = n._rank = None

    # -- simplifying construction
    def mk(self, op, *args):
        f = SIMPL.get(op)
        if f is not None:
            r = f(self, *args)
            if r is not None:
                return r
        return self.raw(op, *args)

    def subst(self, n, mapping, memo=None):
        """mapping: {node: node}; rebuilds through mk so that simplifications apply."""
        if memo is None:
            memo = {}
        return self._subst(n, mapping, memo)

    def _subst(self, n, mapping, memo):
        if n in mapping:
            return mapping[n]
        if isinstance(n, tuple):
            return tuple(self._subst(x, mapping, memo) if isinstance(x, (Node, tuple)) else x for x in n)
        r = memo.get(n)
        if r is None:
            args = tuple(self._subst(a, mapping, memo) if isinstance(a, (Node, tuple)) else a for a in n.args)
            r = n if args == n.args else self.mk(n.op, *args)
            memo[n] = r
        return r

    def walk(self, n, seen=None):
        seen = set() if seen is None else seen
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
                continue
            if not isinstance(x, Node) or x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)

    def contains(self, n, pred):
        return any(pred(x) for x in self.walk(n))

    # -- binders
    def max_bvar(self, n):
        return max([x.args[0] for x in self.walk(n) if x.op == 'bvar'], default=-1)

    def bind(self, body, pos):
        """(k, body with pos replaced by bvar k), alpha-canonical."""
        k = 1 + self.max_bvar(body)
        return k, self.subst(body, {pos: self.raw('bvar', k)})

    def instantiate(self, k, body, value):
        return self.subst(body, {self.raw('bvar', k): value})

    # -- facets
    def kind(self, n):
        if n._kind is None:
            n._kind = 'unknown'            # value seen by the rank of the node itself while its kind is being computed
            n._kind = self._compute_kind(n) or 'unknown'
        return n._kind

    def rank(self, n):
        if n._rank is None:
            self.kind(n)
        if n._rank is None:
            r = self._compute_rank(n)
            n._rank = -1 if r is None else r
        return None if n._rank == -1 else n._rank

    def text(self, *parts):
        """concatenation of strings in normal form"""
        out = []
        for p in parts:
            for q in (p.args if p.op == 'text' else (p,)):
                if q.op == 'fmt' and q.args[1] == '' and (self.kind(q.args[0]) == 'str'):
                    q = q.args[0]
                    if q.op == 'text':
                        out.extend(q.args)
                        continue
                if q.op == 'fmt' and q.args[0].op == 'const' and isinstance(q.args[0].args[0], (str, int)) and not isinstance(q.args[0].args[0], bool):
                    try:
                        q = self.const(format(q.args[0].args[0], q.args[1]))
                    except ValueError:
                        pass
                if q.op == 'const' and q.args[0] == '':
                    continue
                if q.op == 'gamma' and all(x.op == 'const' and isinstance(x.args[0], str) for x in q.args[1:]) and False:
                    pass
                if out and q.op == 'const' and out[-1].op == 'const' and isinstance(q.args[0], str):
                    out[-1] = self.const(out[-1].args[0] + q.args[0])
                else:
                    out.append(q)
        if not out:
            return self.const('')
        if len(out) == 1 and out[0].op != 'fmt':
            return out[0]
        return self.raw('text', *out)

    def fmt(self, v, spec='', conv=''):
        return self.raw('fmt', v, spec, conv or '')

    def _compute_kind(self, n):
        f = self.facts.get(n.id)
        if f and 'kind' in f:
            return f['kind']
        op, a = n.op, n.args
        if op == 'seqmul':
            return self.kind(a[0])
        if op == 'cell':
            return 'list'
        if op == 'const':
            v = a[0]
            return ('none' if v is None else 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else
                    'float' if isinstance(v, float) else 'str' if isinstance(v, str) else 'slice' if isinstance(v, slice) else None)
        if op in ('add', 'sub', 'mul', 'div', 'pow', 'mod', 'floordiv'):
            ks = {self.kind(a[0]), self.kind(a[1])}
            if 'ndarray' in ks:
                return 'ndarray'
            if ks <= {'int', 'bool'} and op != 'div':
                return 'int'
            if ks <= {'int', 'bool', 'float'}:
                return 'float'
            if ks == {'str'} or (op == 'mod' and self.kind(a[0]) == 'str'):
                return 'str'
            if ks == {'list'} or (op == 'mul' and 'list' in ks):
                return 'list'
            if ks == {'tuple'}:
                return 'tuple'
            if ks & {'csr', 'csc'} and op in ('mul', 'div'):
                return next(iter(ks & {'csr', 'csc'}))
            return None
        if op in ('lt', 'le', 'eq'):
            ks = {self.kind(a[0]), self.kind(a[1])}
            if 'ndarray' in ks:
                return 'ndarray'
            if ks <= {'int', 'float', 'bool', 'str', 'none'}:
                return 'bool'
            return None
        if op == 'not':
            return self.kind(a[0])
        if op in ('isinstance', 'is', 'in', 'hasattr', 'isscalar', 'issubclass', 'nonempty', 'truth', 'callable'):
            return 'bool'
        if op in ('and', 'or'):
            ks = {self.kind(x) for x in a}
            return ks.pop() if len(ks) == 1 else None
        if op in ('dim', 'size', 'ndim', 'pos', 'bvar', 'int'):
            return 'int'
        if op in ('float',):
            return 'float'
        if op in ('argsort', 'nonzero', 'diff', 'cumsum', 'toarray', 'broadcast_to', 'ravel', 'arange', 'zeros', 'ones', 'full', 'empty',
                  'concat', 'vstack', 'hstack', 'isin', 'unique', 'sort', 'shapevec', 'bincount', 'where', 'cumprod', 'linspace', 'columnstack', 'tile', 'repeat'):
            return 'ndarray'
        if op in ('neg', 'abs', 'sqrt', 'log', 'exp', 'cos', 'sin', 'arccos', 'gammaln', 'nan_to_num', 'clip', 'round', 'asarray', 'astype', 'T',
                  'reshape', 'squeeze', 'expand_dims', 'maximum', 'minimum', 'copy', 'setitem', 'fill', 'sphere'):
            k = self.kind(a[0])
            if op == 'asarray':
                return k if k in ('csr', 'csc', 'df') and False else 'ndarray'
            return k
        if op in ('sum', 'max', 'min', 'argmax', 'argmin', 'mean', 'prod'):
            if len(a) > 1 and a[1] is not None and isinstance(a[1], Node) and a[1].op == 'const' and a[1].args[0] is None:
                return 'float' if op not in ('argmax', 'argmin') else 'int'
            r = self.rank(a[0])
            if r == 1:
                return 'float' if op not in ('argmax', 'argmin') else 'int'
            return None
        if op in ('norm',):
            return 'float' if len(a) < 2 or a[1] == self.none else None
        if op == 'index':
            k = self.kind(a[0])
            if k in ('csr', 'csc'):
                i = a[1]
                if i.op == 'tuple' and all(self.is_scalar_index(x) for x in i.args):
                    return 'float'
                return k
            if k == 'ndarray':
                r = self.rank(n)
                if r == 0:
                    return 'float'
                if r is not None and r > 0:
                    return 'ndarray'
                return None
            if k == 'list' and a[1].op == 'slice':
                return 'list'
            if k == 'tuple' and a[1].op == 'slice':
                return 'tuple'
            return None
        if op == 'gamma':
            k1, k2 = self.kind(a[1]), self.kind(a[2])
            return k1 if k1 == k2 else None
        if op == 'matmul':
            r = self.rank(n)
            return 'float' if r == 0 else 'ndarray'
        if op in ('csr', 'csc'):
            return op
        if op in ('list', 'map', 'listcat'):
            return 'list'
        if op in ('tuple', 'dict', 'set'):
            return op
        if op in ('format', 'str', 'fstr', 'join', 'text', 'strcat', 'percent'):
            return 'str'
        if op in ('slice', 'range'):
            return op
        if op == 'mu' or op == 'fin':
            init = a[2] if len(a) > 2 else None
            if init is not None:
                k = self.kind(init)
                return k if k in ('ndarray', 'list', 'dict') else ('float' if k in ('int', 'float') else None)
        return None

    def is_scalar_index(self, x):
        return self.kind(x) in ('int',) or (x.op == 'const' and isinstance(x.args[0], int)) or self.rank(x) == 0

    def _compute_rank(self, n):
        f = self.facts.get(n.id)
        if f and 'rank' in f:
            return f['rank']
        op, a = n.op, n.args
        k = self.kind(n)
        if k in ('int', 'float', 'bool', 'none', 'str'):
            return 0
        if op in ('csr', 'csc') or k in ('csr', 'csc', 'df'):
            return 2
        if op in ('add', 'sub', 'mul', 'div', 'pow', 'mod', 'floordiv', 'lt', 'le', 'eq', 'and', 'or', 'maximum', 'minimum'):
            rs = [self.rank(x) for x in a[:2]]
            return None if None in rs else max(rs)
        if op in ('neg', 'abs', 'sqrt', 'log', 'exp', 'cos', 'sin', 'arccos', 'gammaln', 'nan_to_num', 'clip', 'round', 'astype', 'not',
                  'copy', 'setitem', 'toarray', 'T', 'asarray', 'sort', 'isin', 'sphere'):
            if op == 'isin' or op == 'toarray' or op != 'asarray' or self.kind(a[0]) != 'list':
                return self.rank(a[0])
            return None
        if op == 'fill':
            return self.rank(a[0])
        if op in ('argsort', 'diff', 'cumsum'):
            return self.rank(a[0]) if len(a) < 2 or True else None
        if op in ('nonzero', 'arange', 'ravel', 'unique', 'bincount', 'linspace'):
            return 1
        if op in ('zeros', 'ones', 'empty', 'full'):
            s = a[0]
            if s.op == 'tuple':
                return len(s.args)
            if s.op == 'list':
                return len(s.args)
            if self.kind(s) == 'int':
                return 1
            return None
        if op == 'expand_dims':
            r = self.rank(a[0])
            return None if r is None else r + 1
        if op == 'index':
            return self._index_rank(a[0], a[1])
        if op in ('reshape', 'broadcast_to'):
            s = a[1]
            if s.op in ('tuple', 'list'):
                return len(s.args)
            return 1 if self.kind(s) == 'int' else None
        if op == 'matmul':
            r1, r2 = self.rank(a[0]), self.rank(a[1])
            if r1 is None or r2 is None:
                return None
            return {(1, 1): 0, (2, 1): 1, (1, 2): 1, (2, 2): 2}.get((r1, r2))
        if op == 'gamma':
            r1, r2 = self.rank(a[1]), self.rank(a[2])
            return r1 if r1 == r2 else None
        if op in ('vstack', 'columnstack'):
            return 2
        if op in ('sum', 'max', 'min', 'mean', 'argmax', 'argmin', 'prod'):
            r = self.rank(a[0])
            if len(a) < 2 or a[1] == self.none:
                return 0
            return None if r is None else r - 1
        if op in ('mu', 'fin') and len(a) > 2:
            return self.rank(a[2])
        if op == 'where':
            rs = [self.rank(x) for x in a]
            return None if None in rs else max(rs)
        return None

    def _index_rank(self, base, idx):
        r = self.rank(base)
        if r is None:
            return None
        items = list(idx.args) if idx.op == 'tuple' else [idx]
        out = r
        adv = []
        for x in items:
            if x.op == 'slice' or (x.op == 'const' and x.args[0] is Ellipsis):
                continue
            if x.op == 'const' and x.args[0] is None:
                out += 1
                continue
            rx = self.rank(x)
            if rx is None:
                return None
            if self.is_boolean(x) and rx > 0:
                out -= rx - 1
                continue
            out -= 1
            if rx > 0:
                adv.append(rx)
        if adv:
            out += max(adv)
        if self.kind(base) in ('csr', 'csc'):
            return 2 if out > 0 else 0
        return out

    def is_boolean(self, n):
        if n.op in ('lt', 'le', 'eq', 'isin', 'isnan', 'isfinite'):
            return True
        if n.op == 'not':
            return self.is_boolean(n.args[0])
        if n.op in ('and', 'or'):
            return all(self.is_boolean(x) for x in n.args)
        if n.op == 'const':
            return isinstance(n.args[0], bool)
        if n.op == 'gamma':
            return self.is_boolean(n.args[1]) and self.is_boolean(n.args[2])
        if n.op == 'astype':
            return n.args[1].op == 'const' and n.args[1].args[0] == 'bool'
        if n.op in ('isinstance', 'is', 'in', 'hasattr', 'isscalar', 'all', 'any', 'nonempty', 'callable'):
            return True
        return False

    # -- element types: what storing values in an array of a given dtype does to them
    CAP = {'int8': (1 << 7) - 1, 'uint8': (1 << 8) - 1, 'int16': (1 << 15) - 1, 'uint16': (1 << 16) - 1, 'int32': (1 << 31) - 1, 'uint32': (1 << 32) - 1,
           'int64': (1 << 63) - 1, 'uint64': (1 << 64) - 1}

    def int_elems(self, n):
        if self.kind(n) == 'int' or self.is_boolean(n):
            return True
        op, a = n.op, n.args
        if op == 'const':
            return isinstance(a[0], (int, bool))
        if op in ('argsort', 'nonzero', 'bincount', 'argmax', 'argmin'):
            return True
        if op in ('arange', 'range', 'add', 'sub', 'mul', 'mod', 'floordiv', 'min2', 'max2', 'minimum', 'maximum'):
            return all(self.int_elems(x) for x in a)
        if op == 'gamma':
            return self.int_elems(a[1]) and self.int_elems(a[2])
        if op in ('index', 'cumsum', 'sum', 'copy', 'reshape', 'ravel', 'sort', 'squeeze', 'asarray', 'max', 'min'):
            return self.int_elems(a[0])
        if op == 'astype':
            return a[1].op == 'const' and a[1].args[0] in self.CAP
        if op == 'map':
            return self.int_elems(a[2])
        return False

    def below(self, n):
        """node b with 0 <= every element of n < b, or None"""
        op, a = n.op, n.args
        if op == 'argsort' and self.rank(a[0]) == 1:
            return self.dim(a[0], 0)
        if op == 'nonzero':
            return self.dim(a[0], 0)
        if op in ('arange', 'range') and self.num(a[0]) == 0 and self.num(a[2]) == 1:
            return a[1]
        if op in ('index', 'copy', 'reshape', 'ravel', 'sort', 'squeeze', 'asarray'):
            return self.below(a[0])
        return None

    def fits(self, dt, n, b, most=None):
        """does every element of n (integers, below b) fit into dt; most: known upper bound of b"""
        if dt.op == 'gamma':
            c = dt.args[0]
            up = None
            if c.op == 'lt' and c.args[0] is b and isinstance(self.num(c.args[1]), int):
                up = self.num(c.args[1]) - 1
            elif c.op == 'le' and c.args[0] is b and isinstance(self.num(c.args[1]), int):
                up = self.num(c.args[1])
            lo = None
            if c.op == 'lt' and c.args[1] is b and isinstance(self.num(c.args[0]), int):
                lo = self.num(c.args[0])
            elif c.op == 'le' and c.args[1] is b and isinstance(self.num(c.args[0]), int):
                lo = self.num(c.args[0]) - 1
            m1 = most if up is None else up if most is None else min(up, most)
            m2 = most if lo is None else lo if most is None else min(lo, most)
            return self.fits(dt.args[1], n, b, m1) and self.fits(dt.args[2], n, b, m2)
        if dt.op != 'const':
            return False
        d = dt.args[0]
        if d in ('int64', 'uint64'):
            return True
        return d in self.CAP and most is not None and most - 1 <= self.CAP[d]

    def stored(self, dt, v):
        """the value v after it has been stored in an array of element type dt"""
        if dt is None or dt.op == 'const' and dt.args[0] in ('float64', 'object', 'complex128', 'float128', None):
            return v
        if dt.op not in ('const', 'gamma'):
            return v
        if dt.op == 'gamma' and not all(x.op in ('const', 'gamma') for x in dt.args[1:]):
            return v
        if dt.op == 'const' and not isinstance(dt.args[0], str):
            return v
        if dt.op == 'const' and dt.args[0] == 'bool' and self.is_boolean(v):
            return v
        if self.int_elems(v):
            if dt.op == 'const' and dt.args[0] in ('int64', 'uint64'):
                return v
            b = self.below(v)
            if b is not None and self.fits(dt, v, b):
                return v
            if v.op == 'const' and self._leaves_hold(dt, v.args[0]):
                return v
        return self.mk('astype', v, dt)

    def _leaves_hold(self, dt, k):
        if dt.op == 'gamma':
            return self._leaves_hold(dt.args[1], k) and self._leaves_hold(dt.args[2], k)
        d = dt.args[0]
        return d in self.CAP and (0 if d[0] == 'u' else -self.CAP[d]) <= k <= self.CAP[d] or str(d).startswith('float') and abs(k) < 2048

    def elem_dtype(self, n):
        """dtype of a freshly allocated array"""
        while n.op in ('fill', 'setitem', 'copy'):
            n = n.args[0]
        if n.op in ('zeros', 'ones', 'empty', 'full'):
            dt = n.args[-1]
            return dt if dt.op in ('const', 'gamma') else None
        return None

    # -- convenience
    def num(self, n):
        if n.op == 'const' and isinstance(n.args[0], numbers.Number) and not isinstance(n.args[0], bool):
            return n.args[0]
        return None

    def tup(self, *xs):
        return self.raw('tuple', *xs)

    def add(self, a, b):
        return self.mk('add', a, b)

    def index(self, a, *idx):
        return self.mk('index', a, idx[0] if len(idx) == 1 else self.tup(*idx))

    def slice(self, a=None, b=None, c=None):
        w = lambda x: self.none if x is None else self.const(x) if isinstance(x, int) else x
        return self.mk('slice', w(a), w(b), w(c))

    def dim(self, a, k=0):
        return self.mk('dim', a, k)

    def NOT(self, c):
        return self.mk('not', c)


# ---------------------------------------------------------------------------------------------- simplifiers
SIMPL = {}


def simp(*ops):
    def deco(f):
        for o in ops:
            SIMPL[o] = f
        return f
    return deco


def _fold(g, op, a, b):
    x, y = g.num(a), g.num(b)
    if x is None or y is None:
        return None
    try:
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x / y,
             'floordiv': lambda: x // y, 'mod': lambda: x % y, 'pow': lambda: x ** y if abs(y) < 100 else None}[op]()
    except Exception:
        return None
    return None if r is None or isinstance(r, complex) else g.const(r)


@simp('add')
def s_add(g, a, b):
    r = _fold(g, 'add', a, b)
    if r is not None:
        return r
    if a.op == 'const' and b.op == 'const' and isinstance(a.args[0], str) and isinstance(b.args[0], str):
        return g.const(a.args[0] + b.args[0])
    if g.kind(a) in ('str', 'list', 'tuple') or g.kind(b) in ('str', 'list', 'tuple'):
        if g.kind(a) == 'str' or g.kind(b) == 'str':
            return g.text(a, b)
        if a.op in ('list', 'tuple') and a.op == b.op:
            return g.raw(a.op, *(a.args + b.args))
        return g.raw('listcat', a, b) if 'list' in (g.kind(a), g.kind(b)) else g.raw('strcat', a, b)
    if g.num(a) == 0:
        return b
    if g.num(b) == 0:
        return a
    # constants to the left: (c + x) + d -> (c+d) + x
    ca, xa = (g.num(a.args[0]), a.args[1]) if a.op == 'add' and g.num(a.args[0]) is not None else (None, None)
    if ca is not None and g.num(b) is not None:
        return g.mk('add', g.const(ca + g.num(b)), xa)
    if g.num(b) is not None and a.op == 'add' and g.num(a.args[0]) is not None:
        return g.mk('add', g.const(g.num(b) + g.num(a.args[0])), a.args[1])
    cb, xb = (g.num(b.args[0]), b.args[1]) if b.op == 'add' and g.num(b.args[0]) is not None else (None, None)
    if cb is not None and g.num(a) is not None:
        return g.mk('add', g.const(cb + g.num(a)), xb)
    if a.op == 'sub' and a.args[1] is b:
        return a.args[0]
    if b.op == 'sub' and b.args[1] is a:
        return b.args[0]
    if g.num(b) is not None or (g.num(a) is None and b.id < a.id):
        a, b = b, a
    return g.raw('add', a, b)


@simp('sub')
def s_sub(g, a, b):
    r = _fold(g, 'sub', a, b)
    if r is not None:
        return r
    if g.num(b) is not None:
        return g.mk('add', g.const(-g.num(b)), a)
    if a is b and g.kind(a) in ('int',):
        return g.const(0)
    # diff idiom: x[1:] - x[:-1]
    if a.op == 'index' and b.op == 'index' and a.args[0] is b.args[0]:
        ia, ib = a.args[1], b.args[1]
        if ia.op == 'slice' and ib.op == 'slice':
            sa = tuple(x.args[0] if x.op == 'const' else x for x in ia.args)
            sb = tuple(x.args[0] if x.op == 'const' else x for x in ib.args)
            if sa == (1, None, None) and sb == (None, -1, None):
                return g.mk('diff', a.args[0])
    return None


@simp('mul')
def s_mul(g, a, b):
    r = _fold(g, 'mul', a, b)
    if r is not None:
        return r
    if g.kind(a) in ('str', 'list', 'tuple') or g.kind(b) in ('str', 'list', 'tuple'):
        seq, k = (a, b) if g.kind(a) in ('str', 'list', 'tuple') else (b, a)
        if seq.op in ('list', 'tuple') and g.num(k) is not None and isinstance(g.num(k), int) and 0 <= g.num(k) <= 16:
            return g.raw(seq.op, *(seq.args * g.num(k)))
        return g.raw('seqmul', seq, k)
    if g.num(a) == 1:
        return b
    if g.num(b) == 1:
        return a
    if g.num(b) == -1 and g.num(a) is None:
        return g.mk('neg', a)
    if g.num(a) == -1:
        return g.mk('neg', b)
    if g.num(b) is not None or (g.num(a) is None and b.id < a.id):
        a, b = b, a
    return g.raw('mul', a, b)


@simp('div')
def s_div(g, a, b):
    r = _fold(g, 'div', a, b)
    if r is not None:
        return r
    if g.num(b) == 1:
        return a


@simp('floordiv')
def s_floordiv(g, a, b):
    return _fold(g, 'floordiv', a, b)


@simp('mod')
def s_mod(g, a, b):
    return _fold(g, 'mod', a, b)


@simp('pow')
def s_pow(g, a, b):
    r = _fold(g, 'pow', a, b)
    if r is not None:
        return r
    if g.num(b) == 1:
        return a


@simp('neg')
def s_neg(g, a):
    if g.num(a) is not None:
        return g.const(-g.num(a))
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'sub':
        return g.mk('sub', a.args[1], a.args[0])


@simp('abs')
def s_abs(g, a):
    if a.op == 'neg':
        return g.mk('abs', a.args[0])
    if a.op == 'abs':
        return a
    if g.num(a) is not None:
        return g.const(abs(g.num(a)))


@simp('not')
def s_not(g, a):
    if a.op == 'not':
        return a.args[0] if g.is_boolean(a.args[0]) or a.args[0].op == 'not' else None
    if a.op == 'const':
        return g.const(not a.args[0])
    if a.op == 'lt' or a.op == 'le':
        ks = {g.kind(a.args[0]), g.kind(a.args[1])}
        if ks <= {'int', 'bool'}:          # total order only for integers (NaN otherwise)
            return g.mk('le' if a.op == 'lt' else 'lt', a.args[1], a.args[0])
    if a.op == 'nonempty':
        return g.raw('not', a)
    if a.op == 'and':
        return g.mk('or', g.mk('not', a.args[0]), g.mk('not', a.args[1])) if all(g.is_boolean(x) for x in a.args) else None
    if a.op == 'or':
        return g.mk('and', g.mk('not', a.args[0]), g.mk('not', a.args[1])) if all(g.is_boolean(x) for x in a.args) else None


def _as_len(g, x):
    """x if x is the length/size of a sequence"""
    if x.op == 'dim' or x.op == 'size':
        return x
    return None


@simp('lt')
def s_lt(g, a, b):
    x, y = g.num(a), g.num(b)
    if x is not None and y is not None:
        return g.const(x < y)
    if a is b and g.kind(a) == 'int':
        return g.false
    # 0 < len(x)   len(x) < 1
    if x is not None and x == 0 and _as_len(g, b):
        return g.mk('nonempty', b)
    if y is not None and y == 1 and _as_len(g, a):
        return g.mk('not', g.mk('nonempty', a))
    if y is not None and y <= 0 and _as_len(g, a):
        return g.false
    if g.kind(a) == 'int' and g.kind(b) == 'int':
        if x is not None and isinstance(x, int):        # c < n  ->  c+1 <= n
            return g.mk('le', g.const(x + 1), b)
        if y is not None and isinstance(y, int):
            return g.mk('le', a, g.const(y - 1))


@simp('le')
def s_le(g, a, b):
    x, y = g.num(a), g.num(b)
    if x is not None and y is not None:
        return g.const(x <= y)
    if a is b and g.kind(a) == 'int':
        return g.true
    if x is not None and x == 1 and _as_len(g, b):
        return g.mk('nonempty', b)
    if x is not None and x <= 0 and _as_len(g, b):
        return g.true
    if y is not None and y == 0 and _as_len(g, a):
        return g.mk('not', g.mk('nonempty', a))


@simp('nonempty')
def s_nonempty(g, d):
    # d is a dim/size node
    if d.op == 'size':
        if g.rank(d.args[0]) == 1:
            return g.mk('nonempty', g.mk('dim', d.args[0], 0))
    if d.op == 'dim' and d.args[0].op in ('list', 'tuple') and d.args[1] == 0:
        return g.const(len(d.args[0].args) > 0)


@simp('eq')
def s_eq(g, a, b):
    if a.op == 'const' and b.op == 'const':
        return g.const(a.args[0] == b.args[0])
    if a is b and g.kind(a) in ('int', 'str', 'none', 'bool'):
        return g.true
    x, y = g.num(a), g.num(b)
    if y == 0 and y is not None and _as_len(g, a):
        return g.mk('not', g.mk('nonempty', a))
    if x == 0 and x is not None and _as_len(g, b):
        return g.mk('not', g.mk('nonempty', b))
    for p, q in ((a, b), (b, a)):
        if p.op == 'ext' and (q.op == 'dtype' or q.op == 'const' and isinstance(q.args[0], str)):
            from .npmodel import dtype_name
            d = dtype_name(p)
            if d is not None:
                return g.mk('eq', q, g.const(d))
    ka, kb = g.kind(a), g.kind(b)
    if ('none' in (ka, kb)) and ka != kb and 'unknown' not in (ka, kb):
        return g.false
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return g.false
        r = g.true
        for p, q in zip(a.args, b.args):
            r = g.mk('and', r, g.mk('eq', p, q))
        return r
    if (b.op == 'const') < (a.op == 'const') or ((b.op == 'const') == (a.op == 'const') and b.id < a.id):
        return g.raw('eq', b, a)


@simp('is')
def s_is(g, a, b):
    if a is b:
        return g.true
    if a.op == 'const' and b.op == 'const':
        return g.const(a.args[0] is b.args[0] or (a.args[0] == b.args[0] and type(a.args[0]) == type(b.args[0])))
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const' and b.args[0] is None:
        if a.op in ('new', 'ref', 'list', 'tuple', 'dict', 'map', 'fill', 'fn', 'cls', 'bound', 'lam', 'format', 'str', 'pos', 'range', 'setitem'):
            return g.false
        if g.facts.get(a.id, {}).get('nonnull'):
            return g.false
        if g.kind(a) in ('ndarray', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'csr', 'csc', 'df', 'dict', 'obj', 'sparse'):
            return g.false
        if a.op in ('add', 'sub', 'mul', 'div', 'pow', 'neg', 'index') and a.op != 'index':
            return g.false
        if a.op == 'gamma':
            return g.mk('gamma', a.args[0], g.mk('is', a.args[1], b), g.mk('is', a.args[2], b))
        return g.raw('is', a, b)


def _const_truth(n):
    return n.args[0] if n.op == 'const' else None


@simp('and')
def s_and(g, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if x.args[0] is True and g.is_boolean(y):
                return y
            if x.args[0] is False:
                return g.false
    if a.op == 'const' and a.args[0]:
        return b
    if a is b:
        return a
    if a is g.mk('not', b):
        return g.false
    if b.id < a.id and g.is_boolean(a) and g.is_boolean(b):
        return g.raw('and', b, a)


@simp('or')
def s_or(g, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if x.args[0] is False and g.is_boolean(y):
                return y
            if x.args[0] is True:
                return g.true
    if a.op == 'const' and not a.args[0]:
        return b
    if a is b:
        return a
    if b.id < a.id and g.is_boolean(a) and g.is_boolean(b):
        return g.raw('or', b, a)


@simp('gamma')
def s_gamma(g, c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.args[0] else b
    if c.op == 'not' and not (g.rank(c) or 0) > 0:
        return g.mk('gamma', c.args[0], b, a)
    if a.op == 'gamma' and a.args[0] is c:
        return g.mk('gamma', c, a.args[1], b)
    if b.op == 'gamma' and b.args[0] is c:
        return g.mk('gamma', c, a, b.args[2])
    if a.op == 'const' and b.op == 'const' and a.args[0] is True and b.args[0] is False and g.is_boolean(c):
        return c
    if a.op == 'const' and b.op == 'const' and a.args[0] is False and b.args[0] is True and g.is_boolean(c):
        return g.mk('not', c)
    if c.op == 'is' and c.args[1].op == 'const' and a.op == 'const' and a is c.args[1] and b is c.args[0]:
        return b        # None if x is None else x
    if c.op == 'eq' and ((c.args[0] is b and c.args[1] is a) or (c.args[1] is b and c.args[0] is a)) and a.op == 'const':
        return b
    # if all positions are selected then selecting is the identity
    if c.op == 'eq' and b.op == 'index' and b.args[0] is a and b.args[1].op == 'nonzero':
        nz = b.args[1]
        for p, q in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
            if p.op == 'dim' and p.args[0] is nz and g.rank(nz.args[0]) == 1 and g.dim(nz.args[0], 0) is q and g.dim(a, 0) is q:
                return b
    # flattening of "(n,1) matrix to vector, also for n = 1":  v[0] if v.shape == (1,1) else v.squeeze()
    r = _flatten_guard(g, c, a, b)
    if r is not None:
        return r
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        return g.raw('tuple', *[g.mk('gamma', c, x, y) for x, y in zip(a.args, b.args)])


def _flatten_guard(g, c, a, b):
    if b.op != 'squeeze':
        return None
    v = b.args[0]
    if g.rank(v) != 2:
        return None
    # condition must be implied by (and imply) "v has a single element": shape == (1,1), size == 1, shape[0] == 1 of a column
    one = g.const(1)
    d0, d1 = g.mk('eq', g.dim(v, 0), one), g.mk('eq', g.dim(v, 1), one)
    ok = {g.mk('and', d0, d1), g.mk('eq', g.raw('size', v), one)}
    if is_column(g, v):
        ok.add(d0)
    if c in ok and (a in (g.index(v, g.const(0)), g.mk('reshape', v, g.const(-1)), g.mk('reshape', v, g.tup(g.const(-1))), g.mk('ravel', v), g.mk('reshape', v, one), g.mk('reshape', v, g.tup(one)))
                    or a is g.index(v, g.slice(), g.const(0))):
        return g.mk('ravel', v)
    return None


def is_column(g, v):
    """v is known to have exactly one column (and rank 2)"""
    if v.op == 'index' and v.args[1].op == 'tuple' and len(v.args[1].args) == 2:
        i, j = v.args[1].args
        base = v.args[0]
        if g.kind(base) in ('csr', 'csc') and (g.rank(j) == 0) and (g.rank(i) != 0 or i.op == 'slice'):
            return True
    if v.op in ('toarray', 'csc', 'csr'):
        return is_column(g, v.args[0])
    return False


@simp('dim')
def s_dim(g, a, k):
    if isinstance(k, Node):
        k = k.args[0]
    shp = g.facts.get(a.id, {}).get('shape') if a.op == 'param' else None
    if shp is not None and isinstance(k, int) and -len(shp) <= k < len(shp) and shp[k] is not None:
        return g.const(shp[k])
    if a.op in ('list', 'tuple') and k == 0:
        return g.const(len(a.args))
    if a.op == 'const' and isinstance(a.args[0], str) and k == 0:
        return g.const(len(a.args[0]))
    r = g.rank(a)
    if k < 0 and r is not None:
        return g.dim(a, k + r)
    if a.op in ('csc', 'csr', 'toarray', 'asarray', 'astype', 'nan_to_num', 'abs', 'neg', 'copy', 'not', 'clip', 'sort', 'isin',
                'gammaln', 'log', 'exp', 'sqrt', 'cos', 'sin', 'arccos'):
        if not (a.op == 'asarray' and g.kind(a.args[0]) == 'unknown'):
            return g.dim(a.args[0], k)
    if a.op == 'fill' or a.op == 'setitem':
        return g.dim(a.args[0], k)
    if a.op in ('argsort', 'cumsum') and r == 1 and k == 0:
        return g.dim(a.args[0], 0)
    if a.op == 'diff' and r == 1 and k == 0:
        return g.mk('sub', g.dim(a.args[0], 0), g.const(1))
    if a.op == 'map' and k == 0 and a.args[3] == ():
        return a.args[1]
    if a.op == 'seqmul' and k == 0:
        return g.mk('mul', g.dim(a.args[0], 0), a.args[1])
    if a.op == 'T' and r == 2:
        return g.dim(a.args[0], 1 - k)
    if a.op in ('zeros', 'ones', 'empty', 'full'):
        s = a.args[0]
        if s.op in ('tuple', 'list') and k < len(s.args):
            return s.args[k]
        if g.kind(s) == 'int' and k == 0:
            return s
    if a.op == 'arange' and k == 0:
        lo, hi, st = a.args
        if g.num(st) == 1:
            return g.mk('sub', hi, lo)
    if a.op == 'range' and k == 0:
        lo, hi, st = a.args
        if g.num(st) == 1:
            return g.mk('sub', hi, lo)
    if a.op == 'index' and g.kind(a.args[0]) in ('ndarray', 'csr', 'csc', 'list', 'unknown'):
        base, i = a.args
        items = list(i.args) if i.op == 'tuple' else [i]
        if g.kind(base) in ('csr', 'csc') and len(items) == 2 and k < 2:
            it = items[k]
            if it.op == 'slice' and all(x.op == 'const' and x.args[0] is None for x in it.args):
                return g.dim(base, k)
            if g.rank(it) == 0:
                return g.const(1)
            if g.rank(it) == 1 and not g.is_boolean(it):
                return g.dim(it, 0)
        elif g.kind(base) in ('csr', 'csc') and len(items) == 1 and k == 0:
            if g.rank(items[0]) == 0:
                return g.const(1)
            if g.rank(items[0]) == 1 and not g.is_boolean(items[0]):
                return g.dim(items[0], 0)
        elif g.kind(base) in ('csr', 'csc') and len(items) == 1 and k == 1:
            return g.dim(base, 1)
        elif len(items) == 1 and k == 0 and items[0].op != 'slice' and g.rank(items[0]) == 1 and not g.is_boolean(items[0]):
            return g.dim(items[0], 0)
        elif len(items) == 1 and k == 0 and g.rank(items[0]) == 0 and g.rank(base) is not None:
            return g.dim(base, 1)
        elif len(items) == 1 and k == 1 and g.rank(items[0]) == 1 and g.rank(base) == 2:
            return g.dim(base, 1)
        elif len(items) == 2 and g.rank(base) == 2:
            out = []
            for d, it in enumerate(items):
                if it.op == 'slice':
                    if all(x.op == 'const' and x.args[0] is None for x in it.args):
                        out.append(g.dim(base, d))
                    else:
                        out.append(None)
                elif g.rank(it) == 0:
                    continue
                elif g.rank(it) == 1 and not g.is_boolean(it):
                    out.append(g.dim(it, 0))
                else:
                    out.append(None)
            if k < len(out) and out[k] is not None and sum(1 for it in items if it.op != 'slice' and (g.rank(it) or 0) > 0) <= 1:
                return out[k]
        if len(items) == 1 and k == 0 and items[0].op == 'slice':
            lo, hi, st = items[0].args
            full = g.dim(base, 0)
            if st.op == 'const' and st.args[0] in (None, 1, -1):
                if lo.op == 'const' and lo.args[0] is None and hi.op == 'const' and hi.args[0] is None:
                    return full
                # data is never empty (at least one row)
                if lo.op == 'const' and lo.args[0] is None and g.num(hi) == -1 and st.args[0] in (None, 1) and g.kind(base) == 'ndarray':
                    return g.mk('sub', full, g.const(1))
    if a.op == 'add' or a.op == 'sub' or a.op == 'mul' or a.op == 'div' or a.op in ('lt', 'le', 'eq', 'pow'):
        ra, rb = g.rank(a.args[0]), g.rank(a.args[1])
        if ra is not None and rb is not None:
            if ra > rb and rb == 0:
                return g.dim(a.args[0], k)
            if rb > ra and ra == 0:
                return g.dim(a.args[1], k)
    if a.op == 'matmul' and g.rank(a.args[0]) == 2 and g.rank(a.args[1]) == 1 and k == 0:
        return g.dim(a.args[0], 0)
    if a.op == 'reshape' and a.args[1].op == 'tuple':
        s = a.args[1].args
        if k < len(s) and g.num(s[k]) != -1:
            return s[k]
    if a.op == 'broadcast_to' and a.args[1].op == 'tuple':
        s = a.args[1].args
        if k < len(s):
            return s[k]
    if a.op == 'ravel' and is_column(g, a.args[0]) and k == 0:
        return g.dim(a.args[0], 0)
    return None


@simp('size')
def s_size(g, a):
    if g.rank(a) == 1:
        return g.dim(a, 0)


@simp('ndim')
def s_ndim(g, a):
    r = g.rank(a)
    if r is not None:
        return g.const(r)


@simp('squeeze')
def s_squeeze(g, a, axis=None):
    r = g.rank(a)
    if r == 0:
        return a
    if r == 1 and (axis is None or axis == g.none):
        f = g.facts.get(a.id, {})
        if f.get('multi'):                    # assumed to have more than one element in this context
            return a
    if is_column(g, a) and axis is not None and g.num(axis) in (1, -1):
        return g.mk('ravel', a)


@simp('ravel')
def s_ravel(g, a):
    if g.rank(a) == 1:
        return a
    # column of a sparse matrix as a vector
    if a.op == 'toarray' and is_column(g, a.args[0]):
        v = a.args[0]
        return g.index(g.mk('toarray', v.args[0]), *v.args[1].args)


@simp('reshape')
def s_reshape(g, a, shape):
    if g.num(shape) == -1 or (shape.op == 'tuple' and len(shape.args) == 1 and g.num(shape.args[0]) == -1):
        return g.mk('ravel', a)
    if shape.op == 'list':
        return g.mk('reshape', a, g.tup(*shape.args))


@simp('toarray')
def s_toarray(g, a):
    if g.kind(a) == 'ndarray':
        return a
    if a.op in ('csr', 'csc'):
        return g.mk('toarray', a.args[0])
    if a.op == 'index' and g.kind(a.args[0]) in ('csr', 'csc'):
        i = a.args[1]
        if i.op == 'tuple':
            if all(x.op == 'slice' for x in i.args):
                return g.mk('index', g.mk('toarray', a.args[0]), i)
        elif i.op == 'slice' or g.rank(i) == 1:
            return g.mk('index', g.mk('toarray', a.args[0]), i)


@simp('csc')
def s_csc(g, a):
    if g.kind(a) == 'csc':
        return a
    if a.op == 'csr':
        return g.mk('csc', a.args[0])


@simp('csr')
def s_csr(g, a):
    if g.kind(a) == 'csr':
        return a
    if a.op == 'csc':
        return g.mk('csr', a.args[0])


@simp('asarray')
def s_asarray(g, a):
    if g.kind(a) == 'ndarray':
        return a
    if a.op == 'asarray':
        return a


@simp('T')
def s_T(g, a):
    if a.op == 'T':
        return a.args[0]
    if g.rank(a) in (0, 1):
        return a
    if a.op == 'vstack' and len(a.args) == 1 and a.args[0].op in ('tuple', 'list') and all(g.rank(x) == 1 for x in a.args[0].args):
        return g.raw('columnstack', g.tup(*a.args[0].args))


@simp('columnstack')
def s_cs(g, a):
    if a.op == 'list':
        return g.raw('columnstack', g.tup(*a.args))


@simp('diff')
def s_diff(g, a):
    return None


@simp('astype')
def s_astype(g, a, dt):
    f = g.facts.get(a.id, {})
    if f.get('dtype') is not None and dt.op == 'const' and f['dtype'] == dt.args[0]:
        return a
    if g.is_boolean(a) and dt.op == 'const' and dt.args[0] == 'bool':
        return a


@simp('dtype')
def s_dtype(g, a):
    f = g.facts.get(a.id, {})
    if f.get('dtype') is not None:
        return g.const(f['dtype'])
    if a.op in ('csc', 'csr', 'toarray', 'T', 'reshape', 'squeeze', 'ravel', 'expand_dims', 'setitem', 'fill', 'asarray') and not (a.op == 'asarray' and g.kind(a.args[0]) != 'ndarray'):
        return g.mk('dtype', a.args[0])
    if a.op == 'astype':
        return a.args[1]


@simp('in')
def s_in(g, a, b):
    if b.op in ('tuple', 'list', 'set'):
        if a.op == 'const' and all(x.op == 'const' for x in b.args):
            return g.const(any(a.args[0] == x.args[0] for x in b.args))
        r = g.false
        for x in b.args:
            r = g.mk('or', r, g.mk('eq', a, x))
        return r


@simp('slice')
def s_slice(g, a, b, c):
    if c.op == 'const' and c.args[0] == 1:
        return g.raw('slice', a, b, g.none)
    if a.op == 'const' and a.args[0] == 0 and not (c.op == 'const' and isinstance(c.args[0], int) and c.args[0] < 0):
        return g.mk('slice', g.none, b, c)


def full_slice(i):
    return i.op == 'slice' and all(x.op == 'const' and x.args[0] is None for x in i.args)


@simp('index')
def s_index(g, a, i):
    if i.op == 'tuple' and len(i.args) == 1:
        return g.index(a, i.args[0])
    # trailing full slices / ellipsis of a tuple index
    if i.op == 'tuple' and len(i.args) > 1 and i.args[-1].op == 'slice' and full_slice(i.args[-1]) and g.kind(a) in ('ndarray', 'csr', 'csc') \
            and not any(x.op == 'const' and x.args[0] in (None, Ellipsis) for x in i.args):
        return g.mk('index', a, g.tup(*i.args[:-1]))
    c = g.num(i)
    if a.op in ('tuple', 'list') and c is not None and isinstance(c, int) and -len(a.args) <= c < len(a.args):
        return a.args[c]
    if a.op in ('tuple', 'list') and i.op == 'slice' and all(x.op == 'const' for x in i.args):
        return g.raw(a.op, *a.args[slice(*[x.args[0] for x in i.args])])
    if a.op == 'shape':
        if c is not None:
            return g.dim(a.args[0], c)
        if i.op == 'slice' and all(x.op == 'const' for x in i.args) and g.rank(a.args[0]) is not None:
            r = g.rank(a.args[0])
            return g.tup(*[g.dim(a.args[0], k) for k in range(r)][slice(*[x.args[0] for x in i.args])])
    if a.op == 'const' and isinstance(a.args[0], str) and c is not None:
        try:
            return g.const(a.args[0][c])
        except Exception:
            pass
    if full_slice(i) and g.kind(a) in ('ndarray', 'list', 'tuple'):
        return a
    if a.op == 'dict' and i.op == 'const':
        for k, v in a.args:
            if k is i:
                return v
    if a.op == 'range':
        lo, hi, st = a.args
        if g.kind(i) == 'int' and not (c is not None and c < 0):
            return g.mk('add', lo, g.mk('mul', st, i))
    if a.op == 'arange' and g.rank(i) == 0 and not (c is not None and c < 0):
        lo, hi, st = a.args
        return g.mk('add', lo, g.mk('mul', st, i))
    if a.op == 'map' and a.args[3] == () and g.rank(i) == 0 and not (c is not None and c < 0):
        return g.instantiate(a.args[0], a.args[2], i)
    if a.op == 'fill':
        # fill(init, k, trip, idx, val): for bvar k in range(trip): init[idx] = val
        init, k, trip, idx, val = a.args
        if idx is g.raw('bvar', k):
            if g.rank(i) == 0 and not (c is not None and c < 0):
                return g.stored(g.elem_dtype(init), g.instantiate(k, val, i))
            if i.op == 'tuple' and g.rank(i.args[0]) == 0 and i.args[0].op != 'slice':
                return g.mk('index', g.stored(g.elem_dtype(init), g.instantiate(k, val, i.args[0])), g.tup(*i.args[1:]) if len(i.args) > 2 else i.args[1])
    if a.op == 'setitem':
        base, j, v = a.args
        if j is i:
            return g.stored(g.elem_dtype(base), v)
        if g.num(j) is not None and c is not None and isinstance(c, int) and isinstance(g.num(j), int) and (c >= 0) == (g.num(j) >= 0):
            return g.mk('index', base, i)
    # gamma of containers with a constant index
    if a.op == 'gamma' and (a.args[1].op in ('tuple', 'list', 'range', 'shape') and a.args[2].op in ('tuple', 'list', 'range', 'shape')):
        return g.mk('gamma', a.args[0], g.mk('index', a.args[1], i), g.mk('index', a.args[2], i))
    # x[mask] with boolean vector -> x[nonzero(mask)]
    if i.op != 'tuple' and g.is_boolean(i) and g.rank(i) == 1 and g.rank(a) is not None:
        return g.mk('index', a, g.mk('nonzero', i))
    if i.op == 'tuple' and any(g.is_boolean(x) and g.rank(x) == 1 for x in i.args):
        return g.mk('index', a, g.tup(*[g.mk('nonzero', x) if g.is_boolean(x) and g.rank(x) == 1 else x for x in i.args]))
    # row of rank-2 with tuple of two:  a[i][j] -> a[i, j]
    if a.op == 'index' and g.kind(a.args[0]) == 'ndarray' and g.rank(a.args[0]) == 2 and a.args[1].op not in ('tuple', 'slice') \
            and g.rank(a.args[1]) == 0 and i.op not in ('tuple', 'slice'):
        return g.mk('index', a.args[0], g.tup(a.args[1], i))
    # a[I][:, d] -> a[I, d];  a[:, d][I] -> a[I, d]  (dense rank 2)
    if a.op == 'index' and g.kind(a.args[0]) == 'ndarray' and g.rank(a.args[0]) == 2:
        j = a.args[1]
        if j.op not in ('tuple',) and (j.op != 'slice') and g.rank(j) == 1 and i.op == 'tuple' and len(i.args) == 2 and full_slice(i.args[0]) and g.rank(i.args[1]) == 0:
            return g.mk('index', a.args[0], g.tup(j, i.args[1]))
        if j.op == 'tuple' and len(j.args) == 2 and full_slice(j.args[0]) and g.rank(j.args[1]) == 0 and i.op != 'tuple':
            return g.mk('index', a.args[0], g.tup(i, j.args[1]))
    # composition of integer-array selections: a[I][J] -> a[I[J]]   (I rank 1, J anything on axis 0)
    if a.op == 'index' and i.op != 'tuple' and a.args[1].op not in ('tuple', 'slice') and g.rank(a.args[1]) == 1 and g.kind(a.args[0]) in ('ndarray', 'csr', 'csc') \
            and not g.is_boolean(a.args[1]):
        return g.mk('index', a.args[0], g.mk('index', a.args[1], i))
    # a[I, d][J] -> a[I[J], d]
    if a.op == 'index' and i.op != 'tuple' and a.args[1].op == 'tuple' and len(a.args[1].args) == 2 and g.kind(a.args[0]) == 'ndarray':
        I, d = a.args[1].args
        if I.op != 'slice' and g.rank(I) == 1 and g.rank(d) == 0:
            return g.mk('index', a.args[0], g.tup(g.mk('index', I, i), d))
    # slice of a slice with plain bounds is left alone
    # element of a slice: x[:k][-1] -> x[k-1], x[k:][0] -> x[k]
    if a.op == 'index' and a.args[1].op == 'slice' and g.rank(i) == 0:
        lo, hi, st = a.args[1].args
        base = a.args[0]
        n_lo = lo.op == 'const' and lo.args[0] is None
        n_hi = hi.op == 'const' and hi.args[0] is None
        if st.op == 'const' and st.args[0] is None:
            if c is not None and c < 0 and n_lo and not n_hi and (g.num(hi) is None or g.num(hi) > 0):
                return g.mk('index', base, g.mk('add', hi, i))
            if c is not None and c < 0 and n_hi:
                return g.mk('index', base, i)
            if not (c is not None and c < 0):
                if n_lo:
                    return g.mk('index', base, i)
                if not (g.num(lo) is not None and g.num(lo) < 0):
                    return g.mk('index', base, g.mk('add', lo, i))
    # same with a row index in front: x[d, :k][-1]
    if a.op == 'index' and a.args[1].op == 'tuple' and len(a.args[1].args) == 2 and a.args[1].args[1].op == 'slice' and g.rank(a.args[1].args[0]) == 0 \
            and a.args[1].args[0].op != 'slice' and i.op != 'tuple':
        d, sl = a.args[1].args
        return g.mk('index', g.mk('index', g.mk('index', a.args[0], d), sl), i)
    # x[d, lo:hi] -> x[d][lo:hi]
    if i.op == 'tuple' and len(i.args) == 2 and i.args[1].op == 'slice' and i.args[0].op != 'slice' and g.rank(i.args[0]) == 0 and g.kind(a) == 'ndarray' and g.rank(a) == 2:
        return g.mk('index', g.mk('index', a, i.args[0]), i.args[1])
    # T
    if a.op == 'T' and g.rank(a) == 2:
        if i.op != 'tuple' and g.rank(i) == 0 and i.op != 'slice':
            return g.mk('index', a.args[0], g.tup(g.slice(), i))
        if i.op == 'tuple' and len(i.args) == 2 and all(x.op == 'slice' or g.rank(x) == 0 for x in i.args):
            return g.mk('index', a.args[0], g.tup(i.args[1], i.args[0]))
    # argsort over axis 0 of a matrix, column d
    if a.op == 'argsort' and g.rank(a.args[0]) == 2 and len(a.args) > 1 and g.num(a.args[1]) == 0 and i.op == 'tuple' and len(i.args) == 2 and full_slice(i.args[0]):
        return g.mk('argsort', g.mk('index', a.args[0], i), g.const(-1))
    if a.op == 'astype' and a.args[1].op == 'const' and g.rank(a.args[0]) is not None and g.rank(a.args[0]) > 0 and 'int' in str(a.args[1].args[0]):
        return g.mk('astype', g.mk('index', a.args[0], i), a.args[1]) if False else None
    # sparse: row vector p.toarray()[0]
    if a.op == 'toarray' and c == 0 and a.args[0].op == 'index' and g.kind(a.args[0].args[0]) in ('csr', 'csc') and a.args[0].args[1].op not in ('tuple', 'slice') \
            and g.rank(a.args[0].args[1]) == 0:
        return g.mk('index', g.mk('toarray', a.args[0].args[0]), a.args[0].args[1])
    # sparse: column v.toarray()[:, 0]
    if a.op == 'toarray' and is_column(g, a) and i.op == 'tuple' and len(i.args) == 2 and full_slice(i.args[0]) and g.num(i.args[1]) == 0:
        return g.mk('ravel', a)
    # scalar element of a sparse matrix
    if g.kind(a) in ('csr', 'csc') and i.op == 'tuple' and len(i.args) == 2 and all(x.op != 'slice' and g.rank(x) == 0 for x in i.args):
        return g.mk('index', g.mk('toarray', a), i)
    if g.kind(a) in ('csr', 'csc') and a.op == 'index' and a.args[1].op not in ('tuple', 'slice') and g.rank(a.args[1]) == 1 and i.op == 'tuple' \
            and len(i.args) == 2 and full_slice(i.args[0]):
        return g.mk('index', a.args[0], g.tup(a.args[1], i.args[1]))
    if a.op in ('csc', 'csr') and i.op == 'tuple' and len(i.args) == 2:
        pass
    return None


@simp('nonzero')
def s_nonzero(g, m):
    return None


@simp('matmul')
def s_matmul(g, a, b):
    if g.kind(a) in ('csr', 'csc') and g.rank(b) in (1, 2) and g.kind(b) == 'ndarray':
        return g.mk('matmul', g.mk('toarray', a), b)
    if g.rank(a) == 1 and g.rank(b) == 1 and b.id < a.id:
        return g.raw('matmul', b, a)


@simp('sum')
def s_sum(g, a, axis=None):
    if axis is None:
        return g.mk('sum', a, g.none)
    if g.num(axis) is not None and g.rank(a) == 1:
        return g.mk('sum', a, g.none)
    if axis is g.none and a.op == 'mul' and g.rank(a.args[0]) == 1 and g.rank(a.args[1]) == 1:
        return g.mk('matmul', a.args[0], a.args[1])
    # sum(map(.. eq ..)) stays


@simp('max', 'min', 'argmax', 'argmin', 'mean', 'prod', 'any', 'all')
def s_red(g, *args):
    return None


@simp('argsort')
def s_argsort(g, a, axis=None):
    if axis is None:
        return g.mk('argsort', a, g.const(-1))
    if g.rank(a) == 1 and g.num(axis) == 0:
        return g.mk('argsort', a, g.const(-1))


@simp('range')
def s_range(g, a, b, c):
    return None


@simp('maximum', 'minimum')
def s_maximum(g, a, b):
    return None


@simp('truth')
def s_truth(g, a):
    if a.op == 'const':
        return g.const(bool(a.args[0]))
    if g.is_boolean(a):
        return a
    k = g.kind(a)
    if k in ('list', 'tuple', 'str', 'dict'):
        if a.op in ('list', 'tuple'):
            return g.const(len(a.args) > 0)
        return g.mk('nonempty', g.dim(a, 0))
    if a.op in ('dim', 'size'):
        return g.mk('nonempty', a)
    if a.op in ('fn', 'cls', 'new', 'bound'):
        return g.true
    return a
