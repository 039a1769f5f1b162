"""C15, C21, C24: what fit and the queries make of the containers they are given (raw contexts: nothing is known about the arguments), and what rejects them."""
import numpy as np
import scipy.sparse as sp

from .contexts import TREES
from .graph import is_node
from .registry import contexts, guarded, rule
from .report import Report
from .rules_life import value_error
from .vals import constants
from .termeval import BadValue, CantEval, Eval, short

FLOATS = ('float32', 'float64', 'int64')                # numbers in which the computations of training neither overflow nor round


# ---------------------------------------------------------------- stand-ins for containers
class Frame:
    """stands for a pandas data frame: what its interface promises"""
    def __init__(self, values, columns, index=None):
        self.values = np.array(values)
        self.columns = list(columns)
        self.index = index if index is not None else list(range(100, 100 + len(self.values)))
        self.shape, self.ndim, self.size, self.empty = self.values.shape, 2, self.values.size, self.values.size == 0

    def __array__(self, dtype=None, copy=None):
        return self.values.copy() if dtype is None else self.values.astype(dtype)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.columns)

    def to_numpy(self, dtype=None, **k):
        return self.values.copy() if dtype is None else self.values.astype(dtype)

    def __repr__(self):
        return 'data frame {}'.format(self.values.tolist())


class Column:
    """stands for a pandas series whose labels are no positions"""
    def __init__(self, values):
        self.values = np.array(values)
        self.index = [7 * k + 3 for k in range(len(self.values))][::-1]
        self.shape, self.ndim, self.dtype, self.name, self.size = self.values.shape, 1, self.values.dtype, 'target', self.values.size

    def __array__(self, dtype=None, copy=None):
        return self.values.copy() if dtype is None else self.values.astype(dtype)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values.tolist())

    def to_numpy(self, dtype=None, **k):
        return self.values.copy() if dtype is None else self.values.astype(dtype)

    def tolist(self):
        return self.values.tolist()

    def __repr__(self):
        return 'series {}'.format(self.values.tolist())


import numbers                                           # noqa: E402
TYPES = {'pandas.DataFrame': Frame, 'pandas.core.frame.DataFrame': Frame, 'pandas.Series': Column, 'pandas.core.series.Series': Column, 'numpy.ndarray': np.ndarray, 'numpy.generic': np.generic,
         'numpy.number': np.number, 'numpy.integer': np.integer, 'numpy.floating': np.floating, 'numpy.matrix': np.matrix, 'builtins.list': list, 'builtins.tuple': tuple, 'builtins.int': int,
         'builtins.float': float, 'builtins.bool': bool, 'builtins.str': str, 'builtins.dict': dict, 'builtins.set': set, 'builtins.range': range, 'builtins.object': object,
         'numbers.Number': numbers.Number, 'numbers.Real': numbers.Real, 'numbers.Integral': numbers.Integral}
for _m in ('scipy.sparse', 'scipy.sparse.csr', 'scipy.sparse.csc', 'scipy.sparse._csr', 'scipy.sparse._csc'):
    for _n in ('csr_matrix', 'csc_matrix', 'coo_matrix', 'spmatrix', 'lil_matrix', 'csr_array', 'csc_array'):
        TYPES['{}.{}'.format(_m, _n)] = getattr(sp, _n)
ISSPARSE = {'scipy.sparse.issparse', 'scipy.sparse.isspmatrix'}
MAKERS = {'scipy.sparse.csc_matrix': sp.csc_matrix, 'scipy.sparse.csr_matrix': sp.csr_matrix}
METHODS = {'to_numpy', 'tolist', 'toarray', 'todense', 'tocsc', 'tocsr', 'copy', 'astype', 'squeeze', 'reshape', 'ravel', 'flatten', 'item', 'transpose', 'any', 'all', 'sum', 'min', 'max'}
ATTRS = {'values', 'columns', 'index', 'shape', 'ndim', 'size', 'dtype', 'data', 'indices', 'indptr', 'nnz', 'T', 'kind', 'itemsize', 'name', 'empty', 'flags', 'c_contiguous', 'f_contiguous', 'format'}


class Raw(Eval):
    """interpretation of terms over containers"""
    def sub(self, extra):
        lv = dict(self.leaves)
        lv.update(extra)
        return Raw(lv, self.opfun, self.I)

    def type(self, n):
        if n.op == 'tuple':
            return tuple(self.type(x) for x in n.args)
        if n.op == 'ext' and n.args[0] in TYPES:
            return TYPES[n.args[0]]
        if n.op == 'cls':
            return ()
        raise CantEval('type')

    def _ev(self, n, env):
        op, a = n.op, n.args
        E = lambda x: self.ev(x, env)
        if op == 'isinstance':
            return isinstance(E(a[0]), self.type(a[1]))
        if op == 'isscalar':
            return np.isscalar(E(a[0]))
        if op == 'hasattr':
            v = E(a[0])
            name = a[1] if isinstance(a[1], str) else E(a[1])
            if isinstance(v, (Frame, Column)) and not hasattr(v, name):
                raise CantEval('hasattr')
            return hasattr(v, name)
        if op == 'extm' and is_node(a[0]) and a[0].op == 'dtype' and a[1] in ('kind', 'itemsize', 'name', 'char', 'num', 'str'):
            return getattr(np.dtype(E(a[0])), a[1])
        if op == 'attr0':
            v = E(a[0])
            if a[1] not in ATTRS:
                raise CantEval('attribute ' + a[1])
            if isinstance(v, str) and a[0].op == 'dtype':
                v = np.dtype(v)
            if not hasattr(v, a[1]):
                raise BadValue('AttributeError: {} has no attribute {}'.format(type(v).__name__, a[1]))
            return getattr(v, a[1])
        if op == 'dtype':
            v = E(a[0])
            if not hasattr(v, 'dtype'):
                raise BadValue('AttributeError: {} has no attribute dtype'.format(type(v).__name__))
            return str(v.dtype)
        if op in ('ndim', 'shape', 'dim', 'size'):
            v = E(a[0])
            if isinstance(v, (Frame, Column)) or sp.issparse(v):
                return {'ndim': lambda: v.ndim, 'shape': lambda: tuple(v.shape), 'dim': lambda: v.shape[a[1]], 'size': lambda: v.size}[op]()
            if op == 'dim' and isinstance(v, np.ndarray) and v.ndim == 0:
                raise BadValue('TypeError: len() of unsized object')
        if op == 'not' and is_node(a[0]) and a[0].op == 'eq':
            x, y = E(a[0].args[0]), E(a[0].args[1])
            if sp.issparse(x) or sp.issparse(y):
                return x != y
        if op == 'eq' and 'dtype' in (a[0].op, a[1].op) and 'ext' in (a[0].op, a[1].op):
            d, k = (a[0], a[1]) if a[0].op == 'dtype' else (a[1], a[0])
            return np.dtype(E(d)) == np.dtype(self.type(k))
        if op == 'eq':
            x, y = E(a[0]), E(a[1])
            if sp.issparse(x) or sp.issparse(y):
                return x == y
        if op in ('sum', 'any', 'all', 'max', 'min'):
            v = E(a[0])
            if sp.issparse(v):
                if op == 'sum':
                    return v.sum()
                v = v.toarray()
                return getattr(np, op)(v, axis=E(a[1]) if len(a) > 1 else None)
        if op == 'asset':
            return set(list(E(a[0])))
        if op in ('asarray', 'copy'):
            v = E(a[0])
            if op == 'copy':
                return v.copy() if hasattr(v, 'copy') else v
            return np.asarray(v)
        if op == 'astype':
            v = E(a[0])
            if a[1].op == 'const' and (sp.issparse(v) or isinstance(v, np.ndarray)):
                return v.astype(a[1].args[0])
        if op == 'values':
            v = E(a[0])
            return v.values if isinstance(v, (Frame, Column)) else v
        if op == 'squeeze':
            v = E(a[0])
            if isinstance(v, Column):
                return v
        if op in ('atleast_1d', 'atleast_2d'):
            v = E(a[0])
            if not sp.issparse(v):
                return getattr(np, op)(v)
        if op == 'reshape':
            v = E(a[0])
            if sp.issparse(v):
                return v.reshape(E(a[1]))
        if op == 'index':
            v = E(a[0])
            if isinstance(v, Frame):
                i = E(a[1])
                if isinstance(i, (list, np.ndarray)) and set(i) <= set(v.columns):
                    return Frame(v.values[:, [v.columns.index(x) for x in i]], list(i), v.index)
            if isinstance(v, (Frame, Column)):
                raise BadValue('KeyError: a {} is indexed by its labels'.format('data frame' if isinstance(v, Frame) else 'series'))
        if op in ('call', 'mcall') and isinstance(a[1], tuple):
            name = a[0]
            if op == 'call' and name == 'numpy.issubdtype' and len(a) == 4 and a[3].op == 'ext':
                return bool(np.issubdtype(np.dtype(E(a[2])), self.type(a[3])))
            vals = [E(x) for x in a[2:]]
            k = len(vals) - len(a[1])
            pos, kw = vals[:k], dict(zip(a[1], vals[k:]))
            if op == 'call' and name in ISSPARSE:
                return sp.issparse(pos[0])
            if op == 'call' and name in MAKERS:
                return MAKERS[name](*pos, **kw)
            if op == 'mcall' and name in METHODS:
                o = pos[0]
                if not hasattr(o, name):
                    if isinstance(o, (Frame, Column)):
                        raise CantEval(name)
                    raise BadValue('AttributeError: {} has no attribute {}'.format(type(o).__name__, name))
                return getattr(o, name)(*pos[1:], **kw)
        return super()._ev(n, env)

    def _truth(self, v):
        if isinstance(v, (Frame, Column)) or sp.issparse(v):
            raise BadValue('ValueError: truth of a container')
        return super()._truth(v)


TYPELEVEL = {'extm', 'lt', 'le', 'gt', 'ge', 'ne', 'isinstance', 'isscalar', 'dtype', 'ndim', 'eq', 'not', 'and', 'or', 'const', 'ext', 'cls', 'tuple', 'is', 'hasattr', 'in', 'truth'}
KEEPING = {'atleast_1d', 'asarray', 'values', 'copy', 'toarray', 'csc', 'csr', 'squeeze', 'expand_dims'}


def typelevel(n, depth=0):
    """a condition on types, element types and ranks only"""
    if not is_node(n):
        return True
    if n.op in ('gamma', 'attr0', 'param') or n.op in KEEPING or n.op in ('astype', 'call', 'mcall', 'list'):
        return depth > 0
    return n.op in TYPELEVEL and all(typelevel(x, depth + (n.op in ('isinstance', 'isscalar', 'dtype', 'ndim', 'hasattr', 'is'))) for x in n.args)


def conversions(n, E, source, depth=0):
    """follows a term to the container it comes from: (reached, [conversions])"""
    out = []
    while depth < 60:
        depth += 1
        if n is source:
            return True, out
        if n.op == 'gamma':
            if not typelevel(n.args[0]):
                return False, out
            n = n.args[1] if E._truth(E(n.args[0])) else n.args[2]
        elif n.op in KEEPING:
            out.append(n.op)
            n = n.args[0]
        elif n.op == 'astype' and n.args[1].op == 'const' and n.args[1].args[0] in ('float64', 'float'):
            out.append('float64')
            n = n.args[0]
        elif n.op == 'attr0' and n.args[1] == 'values':
            out.append('values')
            n = n.args[0]
        elif n.op in ('call', 'mcall') and n.args[0] in MAKERS | {'to_numpy': 1, 'tocsc': 1, 'tocsr': 1, 'copy': 1, 'toarray': 1} and not n.args[1]:
            out.append(n.args[0].split('.')[-1])
            n = n.args[2]
        elif n.op == 'list' and len(n.args) == 1:
            out.append('in a list')
            n = n.args[0]
        else:
            return False, out
    return False, out


# ---------------------------------------------------------------- families of containers
BASE = np.array([[3.0, 0.0, 7.0], [0.0, 1.0, 200.0], [5.0, 0.0, 7.0], [90.0, 2.0, 0.0], [4.0, 0.0, 11.0]])
SIGNED = np.array([[3.0, 0.0, -7.0], [0.0, -1.0, 100.0], [-5.0, 0.0, 7.0], [-90.0, 2.0, 0.0]])
BITS = np.array([[1.0, 0.0], [0.0, 0.0], [1.0, 1.0], [0.0, 1.0]])
REAL = np.array([[0.1, 1e-9, -2.5e7], [1 / 3, 0.0, 1e300], [-0.7, 5.0, 2.0], [16777217.0, 0.25, 0.0]])
BIG = np.array([[16777217.0, 3.0], [0.0, 123456789.0], [2.0 ** 40 + 1, 1.0]])
ONE = np.array([[3.0], [1.0], [4.0], [0.0], [7.0]])


def strided(M, dtype=float):
    w = np.zeros((2 * M.shape[0], 2 * M.shape[1]), dtype=dtype)
    w[::2, ::2] = M
    return w[::2, ::2]


def matrices():
    """[(description, container, the numbers it holds)]"""
    out = []
    for M, what in ((BASE, ''), (ONE, ', one column')):
        out += [('list of lists of int' + what, [[int(x) for x in r] for r in M], M), ('list of lists of float' + what, M.tolist(), M), ('list of rows' + what, [r.copy() for r in M], M),
                ('float64 array' + what, M.copy(), M), ('Fortran-ordered array' + what, np.asfortranarray(M), M), ('strided array' + what, strided(M), M),
                ('float32 array' + what, M.astype(np.float32), M), ('object array' + what, M.astype(object), M),
                ('data frame' + what, Frame(M, 'abc'[:M.shape[1]]), M), ('integer data frame' + what, Frame(M.astype(int), 'abc'[:M.shape[1]]), M),
                ('object data frame' + what, Frame(M.astype(object), 'abc'[:M.shape[1]]), M)]
        for d in ('int64', 'int32', 'uint8', 'uint64', 'int16', 'float16' if what else 'uint16'):
            out.append(('{} array{}'.format(d, what), M.astype(d), M))
        for f, mk in (('CSR', sp.csr_matrix), ('CSC', sp.csc_matrix)):
            for d in ('float64', 'float32', 'int64', 'uint8'):
                out.append(('{} {} matrix{}'.format(d, f, what), mk(M.astype(d)), M))
    out += [('int8 array', SIGNED.astype(np.int8), SIGNED), ('list of lists of negative int', SIGNED.astype(int).tolist(), SIGNED), ('int8 CSR matrix', sp.csr_matrix(SIGNED.astype(np.int8)), SIGNED),
            ('bool array', BITS.astype(bool), BITS), ('list of lists of bool', BITS.astype(bool).tolist(), BITS), ('bool data frame', Frame(BITS.astype(bool), 'ab'), BITS),
            ('bool CSR matrix', sp.csr_matrix(BITS.astype(bool)), BITS), ('bool CSC matrix', sp.csc_matrix(BITS.astype(bool)), BITS), ('bool object array', BITS.astype(bool).astype(object), BITS)]
    for M, what in ((REAL, ' of reals'), (BIG, ' of large integers')):
        out += [('list' + what, M.tolist(), M), ('array' + what, M.copy(), M), ('data frame' + what, Frame(M, 'abc'[:M.shape[1]]), M), ('object array' + what, M.astype(object), M),
                ('CSR matrix' + what, sp.csr_matrix(M), M), ('CSC matrix' + what, sp.csc_matrix(M), M)]
    out += [('int64 array of large integers', BIG.astype(np.int64), BIG), ('list of lists of large int', BIG.astype(int).tolist(), BIG), ('int64 CSC matrix of large integers', sp.csc_matrix(BIG.astype(np.int64)), BIG),
            ('two equal rows', np.array([[1, 2], [1, 2]]), np.array([[1.0, 2.0], [1.0, 2.0]])), ('zero CSR matrix', sp.csr_matrix((4, 3)), np.zeros((4, 3)))]
    return out


def one_row_sets(labels):
    """training sets with one row: [(description, matrix, numbers, targets, numbers)]"""
    v = 0.0 if labels else 7.0
    y = np.array([v])
    ys = [('list', [v]), ('int list', [int(v)]), ('array', y.copy()), ('int array', y.astype(int)), ('series', Column(y)), ('one-by-one matrix', y.reshape(1, 1)), ('one-by-one list', [[v]])]
    Xs = [('list', BASE[:1].tolist(), BASE[:1]), ('array', BASE[:1].copy(), BASE[:1]), ('flat array', BASE[0].copy(), BASE[:1]), ('flat list', BASE[0].tolist(), BASE[:1]),
          ('data frame', Frame(BASE[:1], 'abc'), BASE[:1]), ('CSR matrix', sp.csr_matrix(BASE[:1]), BASE[:1]), ('CSC matrix', sp.csc_matrix(BASE[:1]), BASE[:1]),
          ('one-by-one array', BASE[:1, :1].copy(), BASE[:1, :1]), ('one-by-one CSR matrix', sp.csr_matrix(BASE[:1, :1]), BASE[:1, :1])]
    return [('one row: {} with targets as {}'.format(w, d), X, M, t, y) for w, X, M in Xs for d, t in ys]


def single_rows():
    """queries with one row"""
    out = []
    for M in (BASE[:1], REAL[:1], np.array([[3.0]]), np.array([[0.0, 2.0]])):
        d = M.shape[1]
        w = ' of {}'.format(d)
        out += [('flat list' + w, M[0].tolist(), M), ('flat array' + w, M[0].copy(), M), ('one-row list' + w, M.tolist(), M), ('one-row array' + w, M.copy(), M),
                ('one-row data frame' + w, Frame(M, 'abc'[:d]), M), ('one-row CSR matrix' + w, sp.csr_matrix(M), M), ('one-row CSC matrix' + w, sp.csc_matrix(M), M)]
        if M is not REAL[:1] and (M == M.astype(int)).all():
            out += [('flat list of int' + w, M[0].astype(int).tolist(), M), ('flat uint8 array' + w, M[0].astype(np.uint8), M), ('one-row int CSR matrix' + w, sp.csr_matrix(M.astype(int)), M)]
    out += [('a number', 3.5, np.array([[3.5]])), ('an int', 3, np.array([[3.0]])), ('a numpy number', np.float64(0.25), np.array([[0.25]]))]
    return out


def target_values(labels):
    r = np.array([0.0, 1.0, 1.0, 0.0, 1.0]) if labels else np.array([3.0, -1.0, 0.0, 200.0, 3.0])
    return r


def targets(labels):
    y = target_values(labels)
    yi = y.astype(int)
    out = [('list of int', yi.tolist(), y), ('list of float', y.tolist(), y), ('tuple', tuple(y.tolist()), y), ('float64 array', y.copy(), y), ('float32 array', y.astype(np.float32), y),
           ('int64 array', yi, y), ('int32 array', yi.astype(np.int32), y), ('object array', y.astype(object), y), ('series', Column(y), y), ('int series', Column(yi), y),
           ('one-column matrix', y.reshape(-1, 1), y), ('one-column int matrix', yi.reshape(-1, 1), y), ('one-column list', yi.reshape(-1, 1).tolist(), y), ('one-column data frame', Frame(y.reshape(-1, 1), 'y'), y),
           ('strided array', np.repeat(y, 2)[::2], y)]
    if labels:
        out += [('bool array', y.astype(bool), y), ('list of bool', y.astype(bool).tolist(), y), ('uint8 array', y.astype(np.uint8), y), ('bool series', Column(y.astype(bool)), y),
                ('one-column bool matrix', y.astype(bool).reshape(-1, 1), y)]
    else:
        z = np.array([0.1, 1 / 3, 16777217.0, -2.5e7, 0.1])
        out += [('list of reals', z.tolist(), z), ('array of reals', z.copy(), z), ('series of reals', Column(z), z), ('int64 array of large integers', np.array([16777217, 2, 3, 4, 2 ** 40 + 1]), np.array([16777217.0, 2, 3, 4, 2.0 ** 40 + 1])),
                ('uint8 array', np.array([200, 100, 0, 255, 7], dtype=np.uint8), np.array([200.0, 100, 0, 255, 7])), ('int8 array', np.array([-100, 100, 0, 127, 7], dtype=np.int8), np.array([-100.0, 100, 0, 127, 7]))]
    return out


# ---------------------------------------------------------------- arguments of the training and query recursions
def values_for(c, X, y=None, names=None, classes=2):
    lv = {c.X: X}
    if y is not None:
        lv[c.y] = y
    if getattr(c, 'names', None) is not None:
        lv[c.names] = names
    if getattr(c, 'verbose', None) is not None and c.verbose.op == 'param':
        lv[c.verbose] = False
    for p, n in c.params.items():
        if n.op == 'param':
            v = {'level': 0, 'delta': 0.0, 'partition_prior': 0.9, 'split_precision': 0.0, 'prune': False}.get(p)
            if p == 'prior':
                v = np.ones(classes) if classes else np.array([0.0, 1.0, 1.0, 1.0])
            if v is not None:
                lv[n] = v
    return lv


def is_classifier(t):
    return 'Classification' in t


def entry(c):
    """the call by which the recursion starts on the tree itself: (event, name of the matrix, name of the targets, names)"""
    rec = {e.func.qualname for e in c.evs('rcall')}
    for e in c.evs('icall'):
        if e.func.qualname in rec and e.receiver is c.obj:
            return e
    return None


def depends(c, n, p):
    return is_node(n) and any(x is p for x in c.g.walk(n))


def loop_values(I, n):
    """what the value of a variable of a loop (fin, mu) is computed from: its values at the end of an iteration and where the loop is left, and the conditions of leaving it"""
    info = I.g.loops.get(n.args[0])
    if info is None or info.get('comprehension'):
        return []
    out = [x for x in (info.get('trip'), info.get('cond')) if is_node(x)]
    name = n.args[1] if len(n.args) > 1 and isinstance(n.args[1], str) else None
    sts = [info['back']] + [b[2] for b in info['breaks']]
    for b in list(info['breaks']) + list(info['rets']):
        out += [p for p, q in b[1]]
        if b[0] == 'return' and is_node(b[3]):
            out.append(b[3])
    for st in sts:
        if st is None:
            continue
        v = None
        if name is None:
            continue
        if name in st.env:
            v = st.env[name]
        elif name.startswith('heap:'):
            i, a = name.split(':', 2)[1:]
            v = next((x for (o, b), x in st.heap.items() if str(o.id) == i and b == a), None)
        elif name.startswith('content:'):
            v = next((x for o, x in st.content.items() if str(o.id) == name.split(':')[1]), None)
        if is_node(v):
            out.append(I.deref(v, st))
    return out


def deep(c, n):
    """all nodes a value is computed from, also inside loops"""
    seen, work = set(), [n]
    while work:
        x = work.pop()
        if not is_node(x) or x in seen:
            continue
        for y in c.g.walk(x, seen):
            yield y
            if y.op in ('fin', 'mu', 'loopexit'):
                work += loop_values(c.I, y)


def depends_deep(c, n, p):
    return is_node(n) and any(x is p for x in deep(c, n))


def decides(n, src, depth=0):
    """does the truth of a condition rest on src (through and / or / not)?"""
    if n is src:
        return True
    if n.op in ('truth', 'not', 'and', 'or') and depth < 20:
        return any(decides(x, src, depth + 1) for x in n.args if is_node(x))
    return n.op == 'gamma' and any(decides(x, src, depth + 1) for x in n.args)


def role(c, e, test, sources):
    """parameters of the recursion whose entry value comes from one of the caller's objects and passes the test"""
    return [p for p, n in e.vals.items() if is_node(n) and test(n) and any(depends(c, n, s) for s in sources)]


def first_raise(c, lv, before=None):
    """the first exception of a path for the given arguments: ('raise', event) / ('implicit', event, text) / None / CantEval"""
    for e in c.I.events[c.ctor_events:]:
        if before is not None and e.seq >= before:
            break
        if e.kind not in ('raise', 'assert'):
            continue
        if any(p.op == 'loop' for p, q in e.pc):
            continue
        E = Raw(lv, {}, I=c.I)
        try:
            if not E.holds(e.pc):
                continue
            if e.kind == 'assert' and E._truth(E(e.cond)):
                continue
            return e
        except CantEval:
            raise
        except Exception as ex:
            raise Implicit(e, str(ex) if isinstance(ex, BadValue) else '{}: {}'.format(type(ex).__name__, ex))
    return None


class Implicit(Exception):
    def __init__(self, e, text):
        self.e, self.text = e, text


def dense(v):
    return v.toarray() if sp.issparse(v) else v


def right_matrix(v, M, given=None):
    """None: as it should be; text: what is wrong"""
    if isinstance(v, (Frame, list, tuple)):
        return 'still a {}'.format('data frame' if isinstance(v, Frame) else type(v).__name__)
    if not sp.issparse(v) and not isinstance(v, np.ndarray):
        return 'a {}'.format(type(v).__name__)
    if sp.issparse(v) and v.format not in ('csc', 'csr'):
        return 'a {} matrix'.format(v.format)
    if str(v.dtype) not in FLOATS:
        return 'elements are {}'.format(v.dtype)
    if v.shape != M.shape:
        return 'shape {} instead of {}'.format(v.shape, M.shape)
    d = dense(v)
    if str(v.dtype) == 'float32':
        g = given.values if isinstance(given, Frame) else given
        if str(getattr(g, 'dtype', '')) != 'float32':
            return 'elements become float32'
        M = M.astype(np.float32)
    if not np.array_equal(d, M):
        i = tuple(np.argwhere(d != M)[0])
        return 'element {} is {!r} instead of {!r}'.format(i, float(d[i]), float(M[i]))
    return None


def right_target(v, y, given=None):
    if not isinstance(v, np.ndarray):
        return 'a {}'.format('series' if isinstance(v, Column) else 'data frame' if isinstance(v, Frame) else type(v).__name__)
    if str(v.dtype) not in FLOATS:
        return 'elements are {}'.format(v.dtype)
    if v.shape != y.shape:
        return 'shape {} instead of {}'.format(v.shape, y.shape)
    if not np.array_equal(v, y):
        i = int(np.argwhere(v != y)[0][0])
        return 'element {} is {!r} instead of {!r}'.format(i, float(v[i]), float(y[i]))
    return None


# ---------------------------------------------------------------- C21
@rule('C21')
def containers(R, tier):
    C = contexts()
    R.rules.append('raw summaries of fit and of the queries (nothing known about the containers): the term of the matrix and of the targets that enter the recursion, resolved for every container and element '
                   'type, is a chain of value-preserving conversions and no rejecting path is taken; deviating chains by interpretation of the terms over stand-ins; the summaries of training and queries on CSC and '
                   'CSR matrices deviate from the specification nowhere where those on arrays do not')
    for t in TREES:
        guarded(R, t, fit_containers, R, C, t)
        for m in ('predict', 'predict_proba', 'prediction_paths', '_get_raw_leaf_data'):
            if not is_method(C, t, m):
                continue
            guarded(R, '{} {}'.format(t, m), query_containers, R, C, t, m)
    guarded(R, 'sparse matrices', sparse_like_dense, R, tier)


def is_method(C, t, m):
    from .loader import Func
    f = C.P.cls(t).find(m)[0]
    return isinstance(f, Func) and not f.is_abstract


def fit_containers(R, C, t):
    c = C.fit(t, 'raw')
    R.saw(c)
    if c.error:
        return R.add('{} fit'.format(t), 'unknown', None, c.error)
    e = entry(c)
    if e is None:
        return R.add('{} fit'.format(t), 'unknown', None, 'training recursion not found')
    y0 = target_values(is_classifier(t))
    k = 2 if is_classifier(t) else 0
    Xs = role(c, e, lambda n: True, [c.X])
    ys = role(c, e, lambda n: True, [c.y])
    mat = pick(c, e, Xs, values_for(c, BASE.copy(), y0, None, k), BASE)
    tgt = pick(c, e, ys, values_for(c, BASE.copy(), y0, None, k), y0)
    if mat is None or tgt is None:
        return R.add('{} fit'.format(t), 'unknown', e.where, 'arguments of the recursion not found')
    for what, X, M in matrices():
        y = np.resize(y0, len(M))
        y[:2] = [0, 1]
        judge(R, '{} fit: {}'.format(t, what), c, e, mat, values_for(c, X, y, None, k), c.X, lambda v: right_matrix(v, M, X))
    for what, y, z in targets(is_classifier(t)):
        judge(R, '{} fit: targets as {}'.format(t, what), c, e, tgt, values_for(c, BASE.copy(), y, None, k), c.y, lambda v: right_target(v, z, y))
    one = C.fit(t, 'raw', prior=False) if is_classifier(t) else c
    eo = entry(one) if not one.error else None
    for what, X, M, y, z in one_row_sets(is_classifier(t)) if eo is not None else ():
        # (a classifier can only learn one class with the default prior)
        judge(R, '{} fit: {}'.format(t, what), one, eo, mat, values_for(one, X, y, None, 0), one.X, lambda v: right_matrix(v, M, X))
        judge(R, '{} fit: {}: targets'.format(t, what), one, eo, tgt, values_for(one, X, y, None, 0), one.y, lambda v: right_target(v, z, y))
    if deviates(R, '{} fit'.format(t)):
        for what, X, M in larger(c, e, mat):
            y = np.resize(y0, len(M))
            y[:2] = [0, 1]
            judge(R, '{} fit: {}'.format(t, what), c, e, mat, values_for(c, X, y, None, k), c.X, lambda v: right_matrix(v, M, X))
        for what, X, M in larger(c, e, tgt):
            if len(M) < 2 or M.shape[1] != 3:
                continue
            y = np.resize(y0, len(M))
            y[:2] = [0, 1]
            for form, v in (('array', y), ('list', y.tolist()), ('series', Column(y)), ('int array', y.astype(int)), ('bool array' if is_classifier(t) else 'object array', y.astype(bool if is_classifier(t) else object)),
                            ('one-column matrix', y.reshape(-1, 1))):
                z = y
                judge(R, '{} fit: targets as {} of {}'.format(t, form, len(y)), c, e, tgt, values_for(c, M.copy(), v, None, k), c.y, lambda u: right_target(u, z, v))


def pick(c, e, ps, lv, want):
    for p in ps:
        try:
            v = dense(Raw(lv, {}, I=c.I)(e.vals[p]))
        except (CantEval, BadValue):
            continue
        if isinstance(v, np.ndarray) and v.shape == want.shape and np.array_equal(v, want):
            return p
    return None


def judge(R, name, c, e, p, lv, source, right):
    """the value of parameter p at the start of the recursion for given arguments"""
    try:
        r = first_raise(c, lv, e.seq)
        if r is not None:
            return R.add(name, 'refuted', r.where, 'rejected: {}'.format(r.exc if r.kind == 'raise' else 'assertion'))
        E = Raw(lv, {}, I=c.I)
        if not E.holds([q for q in e.pc if q[0].op != 'loop']):
            return R.add(name, 'refuted', e.where, 'the recursion is not entered')
        v = E(e.vals[p])
    except Implicit as ex:
        return R.add(name, 'refuted', ex.e.where, 'fails before: {}'.format(ex.text))
    except CantEval as ex:
        return R.add(name, 'unknown', e.where, 'no interpretation of {}'.format(ex))
    except BadValue as ex:
        return R.add(name, 'refuted', e.where, 'fails: {}'.format(ex))
    bad = right(v)
    if bad:
        return R.add(name, 'refuted', e.vals[p].loc or e.where, 'what enters the recursion is wrong: {}'.format(bad))
    try:
        ok, chain = conversions(e.vals[p], E, source)
    except (CantEval, BadValue):
        ok, chain = False, []
    R.add(name, 'proved' if ok else 'equal', e.where, ' < '.join(chain) or 'unchanged' if ok else 'interpretation')


def rest_alike(R, name, c, e, but, lv, lv0):
    """the other arguments of the recursion are those for an array of the same numbers (element types included)"""
    n = 0
    for p, x in e.vals.items():
        if p in but or not is_node(x) or x.op in ('const', 'new', 'param'):
            continue
        try:
            v, w = Raw(lv, {}, I=c.I)(x), Raw(lv0, {}, I=c.I)(x)
        except (CantEval, BadValue):
            continue
        if not isinstance(w, np.ndarray) or w.dtype.kind not in 'fiub':
            continue
        n += 1
        if not isinstance(v, np.ndarray) or v.dtype != w.dtype or v.shape != w.shape or w.size and w.dtype.kind in 'iu' and not np.array_equal(v, w):
            return R.add(name, 'refuted', x.loc or e.where, '{} is {} instead of {}'.format(p, described(v), described(w)))
    if n:
        R.add(name, 'equal', e.where, '{} arguments agree'.format(n))


def described(v):
    return 'an array of {} of shape {}'.format(v.dtype, v.shape) if isinstance(v, np.ndarray) else type(v).__name__


def query_containers(R, C, t, m):
    c = C.query(t, m, 'inner', 'raw')
    R.saw(c)
    if c.error:
        return R.add('{} {}'.format(t, m), 'unknown', None, c.error)
    e = entry(c)
    if e is None:
        return R.add('{} {}'.format(t, m), 'unknown', None, 'query recursion not found')
    w = width(c)

    def lv(X, M):
        r = values_for(c, X)
        if w is not None:
            r[w] = M.shape[1]
        return r
    mat = pick(c, e, role(c, e, lambda n: True, [c.X]), lv(BASE.copy(), BASE), BASE)
    if mat is None:
        return R.add('{} {}'.format(t, m), 'unknown', e.where, 'arguments of the recursion not found')
    for what, X, M in matrices() + single_rows():
        judge(R, '{} {}: {}'.format(t, m, what), c, e, mat, lv(X, M), c.X, lambda v: right_matrix(v, M, X))
        rest_alike(R, '{} {}: {}: other arguments'.format(t, m, what), c, e, {mat}, lv(X, M), lv(M.copy(), M))
    if deviates(R, '{} {}'.format(t, m)):
        for what, X, M in larger(c, e, mat):
            judge(R, '{} {}: {}'.format(t, m, what), c, e, mat, lv(X, M), c.X, lambda v: right_matrix(v, M, X))


def deviates(R, prefix):
    return any(o['status'] == 'equal' and o['obligation'].startswith(prefix) for o in R.obs)


def larger(c, e, p):
    """containers of the sizes at and around the numbers in the term of the argument"""
    ks = [int(k) for k in constants(c.g, [e.vals[p]] + [x for x, q in e.pc if x.op != 'loop']) if k == int(k) and 3 <= k <= 200000][:6]
    r = np.random.RandomState(4)
    for k in ks:
        shapes = [(n, 3) for n in ((k - 1, k, k + 1) if k < 5000 else (k + 1,))]
        if k <= 3000:
            shapes += [(5, k), (5, k + 1), (k // 2 + 1, 3), (k // 3 + 1, 3)]
        for n, d in shapes:
            M = np.round(r.normal(size=(n, d)) * 3, 1)
            M[r.rand(n, d) < 0.3] = 0
            W = np.floor(M)
            names = ['f{}'.format(j) for j in range(d)]
            w = ' of {} times {}'.format(n, d)
            yield 'array' + w, M.copy(), M
            yield 'int array' + w, W.astype(int), W
            yield 'list' + w, M.tolist(), M
            yield 'data frame' + w, Frame(M, names), M
            yield 'object data frame' + w, Frame(M.astype(object), names), M
            yield 'CSR matrix' + w, sp.csr_matrix(M), M
            yield 'CSC matrix' + w, sp.csc_matrix(M), M
            yield 'int CSR matrix' + w, sp.csr_matrix(W.astype(int)), W
        for f in (0.5, 1, 2):
            M = np.array([[1.0, k * f, 0], [0, -k * f, 2], [3, 0, k * f + 1], [0, 0, 1], [4, 5, 6]])
            w = ' with elements around {}'.format(k * f)
            yield 'array' + w, M.copy(), M
            yield 'list' + w, M.tolist(), M
            yield 'object array' + w, M.astype(object), M
            yield 'data frame' + w, Frame(M, 'abc'), M
            yield 'CSC matrix' + w, sp.csc_matrix(M), M
            if k * f == int(k * f):
                yield 'int array' + w, M.astype(int), M
                yield 'int list' + w, M.astype(int).tolist(), M


def width(c):
    return c.attrs.get('n_dim_')


SPARSE_PROPS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C16', 'C17')


def sparse_like_dense(R, tier):
    """violations of the training and query rules that only sparse matrices have"""
    from .registry import RULES
    n = 0
    for p in SPARSE_PROPS:
        S = Report(p, tier)
        for f in RULES[p]:
            guarded(S, p, f, S, tier)
        R.analysed |= S.analysed
        bad = {o['obligation'] for o in S.violations()}
        for o in S.obs:
            for k in ('csc', 'csr'):
                if ' {} '.format(k) not in o['obligation'] and ' {}:'.format(k) not in o['obligation']:
                    continue
                n += 1
                d = o['obligation'].replace(' {} '.format(k), ' ndarray ').replace(' {}:'.format(k), ' ndarray:')
                name = '{} ({})'.format(o['obligation'], p)
                if o['status'] == 'refuted' and d not in bad:
                    R.add(name, 'refuted', o['where'], 'holds for arrays; ' + o['detail'])
                else:
                    R.add(name, o['status'] if o['status'] != 'refuted' else 'equal', o['where'], o['detail'])
    return n


# ---------------------------------------------------------------- C15
def tree_objects(c):
    own = {c.obj}
    own |= set(getattr(c, 'kids', {}).values())
    return own


def changes_tree(c, e):
    """does an event change the tree (its attributes, or objects stored in them)?"""
    if e.kind in ('setattr', 'delattr'):
        return e.obj in tree_objects(c) or (is_node(e.obj) and e.obj.op == 'gamma' and bool({e.obj.args[1], e.obj.args[2]} & tree_objects(c)))
    from . import alias
    if e.kind in alias.WRITES and is_node(e.target):
        st = c.state.content if c.state is not None else None
        return bool(alias.roots(e.target, c.g, st) & set(getattr(c, 'stale', {}).values()))
    return False


def contradict(p, q):
    d = {}
    for c, pol in p:
        d[c] = pol
    return any(d.get(c, pol) != pol for c, pol in q)


def outcome(c, lv, entered, stop=False):
    """walks the events for given arguments: (kind, event, event that changed the tree before, text)"""
    changed = None
    for e in c.I.events[c.ctor_events:]:
        if stop and entered is not None and e.seq > entered.seq:
            break
        if e.kind not in ('raise', 'assert', 'setattr', 'delattr', 'inplace', 'setitem', 'listmut'):
            continue
        ch = changes_tree(c, e)
        if not ch and e.kind not in ('raise', 'assert'):
            continue
        if ch and changed is not None:
            continue
        E = Raw(lv, {}, I=c.I)
        try:
            if any(p.op == 'loop' for p, q in e.pc):
                if entered is not None and e.seq > entered.seq:
                    return 'unknown', e, changed, 'loop'
                continue
            if not E.holds(e.pc):
                continue
            if ch:
                changed = e
                continue
            if e.kind == 'assert' and E._truth(E(e.cond)):
                continue
        except CantEval as ex:
            return 'unknown', e, changed, str(ex)
        except Exception as ex:
            return 'implicit', e, changed, str(ex) if isinstance(ex, BadValue) else '{}: {}'.format(type(ex).__name__, ex)
        return e.kind, e, changed, ''
    return 'none', None, changed, ''


def bad_arguments(t):
    """[(description, X, y, number of classes the prior is for; 0: default prior)]"""
    n = len(BASE)
    out = []
    if is_classifier(t):
        for k, ys in ((2, ([0, 2, 2, 0, 2], [1, 2, 1, 2, 1], [0, 0, 0, 0, 0], [1, 1, 1, 1, 1], [0, 1, 2, 0, 1], [-1, 0, 0, -1, 0], [0, 0.5, 0, 0.5, 0], [0, 1, 0.5, 1, 0], [0, 1, 1, 0, float('nan')], [-1, 1, 1, -1, 1])),
                      (3, ([0, 1, 1, 0, 1], [0, 1, 3, 0, 1], [1, 2, 3, 1, 2], [0, 2, 0, 2, 2], [0, 1, 2, 3, 0], [0, 1, 1.5, 2, 0])),
                      (0, ([0, 2, 2, 0, 2], [1, 2, 1, 2, 1], [0, 0.5, 0, 0.5, 0], [0, 1, 3, 1, 0], [-1, 0, 1, 0, 0], [2, 2, 2, 2, 2]))):
            for y in ys:
                out.append(('labels {} for {}'.format(y, '{} classes'.format(k) if k else 'the default prior'), BASE.copy(), np.array(y), k))
        out.append(('labels as list [1, 2, ...]', BASE.copy(), [1, 2, 1, 2, 1], 2))
        out.append(('labels as series 1, 2, ...', BASE.copy(), Column(np.array([1, 2, 1, 2, 1])), 2))
    ok = target_values(is_classifier(t))
    for k in (2, 0) if is_classifier(t) else (None, 0):
        d = '' if k else ', default prior'
        out += [('two-column targets' + d, BASE.copy(), np.column_stack([ok, 1 - ok]), k), ('one row of targets' + d, BASE[:1].copy(), np.array([[0.0, 1.0, 1.0]]).repeat(2, 0), k),
                ('three-dimensional targets' + d, BASE.copy(), np.zeros((n, 2, 2)) + ok[:, None, None], k), ('two-column list of targets' + d, BASE.copy(), [[0, 1]] * n, k)]
        for X, w in ((BASE.copy(), 'array'), (BASE.tolist(), 'list'), (sp.csr_matrix(BASE), 'CSR matrix'), (sp.csc_matrix(BASE), 'CSC matrix'), (Frame(BASE, 'abc'), 'data frame'), (BASE.astype(np.float32), 'float32 array')):
            out += [('{} of 5 rows with 4 targets{}'.format(w, d), X, ok[:4].copy(), k), ('{} of 5 rows with 6 targets{}'.format(w, d), X, np.append(ok, 1.0), k),
                    ('{} of 5 rows with 10 targets{}'.format(w, d), X, np.tile(ok, 2), k), ('{} of 5 rows with 3 targets{}'.format(w, d), X, ok[:3].copy(), k)]
        out += [('flat list with 3 targets' + d, [1.0, 2.0, 3.0], ok[:3].copy(), k), ('matrix of 1 column with 4 targets' + d, BASE[:, :1].copy(), ok[:4].copy(), k)]
    return out


@rule('C15')
def rejection(R, tier):
    C = contexts()
    R.rules.append('raw summaries of fit on a new and on a fitted tree: no store to the tree precedes a rejecting path; interpretation of the path conditions over invalid targets and matrices: the first '
                   'rejecting path is a ValueError and precedes every store to the tree')
    for t in TREES:
        for refit in (None, 'inner', 'leaf'):
            for prior in (True, False):
                what = '{}{}{}'.format(t, ', fitted before ({} node)'.format(refit) if refit else '', '' if prior else ', default prior')
                guarded(R, what, reject_one, R, C, t, refit, prior, what)


def reject_one(R, C, t, refit, prior, what):
    c = C.fit(t, 'raw', prior=prior, refit=refit)
    R.saw(c)
    if c.error:
        return R.add(what, 'unknown', None, c.error)
    en = entry(c)
    ev = c.I.events[c.ctor_events:]
    raises = [e for e in ev if e.kind in ('raise', 'assert')]
    stores = [e for e in ev if changes_tree(c, e)]
    late = [(r, s) for r in raises for s in stores if s.seq < r.seq and not contradict(r.pc, s.pc)]
    loc = (c.func.module.rel, c.func.node.lineno)
    if not late:
        R.add('{}: no store to the tree before a rejection'.format(what), 'proved', loc, '{} rejecting paths, {} stores'.format(len(raises), len(stores)))
    else:
        R.add('{}: no store to the tree before a rejection'.format(what), 'unknown', late[0][1].where, 'decided by interpretation only')
    for desc, X, y, k in bad_arguments(t):
        if (k == 0) != (not prior):
            continue
        lv = values_for(c, X, y, None, k)
        for a, n in getattr(c, 'stale', {}).items():
            if a == 'n_dim_':
                lv[n] = 3
        kind, e, changed, text = outcome(c, lv, en)
        name = '{}: {}'.format(what, desc)
        if kind == 'unknown':
            if changed is not None and en is not None and changed.seq < en.seq and not e.seq > en.seq:
                R.add(name, 'unknown', e.where, text)
            else:
                R.add(name, 'unknown', e.where, text)
        elif kind == 'none':
            R.add(name, 'refuted', loc, 'is not rejected')
        elif changed is not None:
            R.add(name, 'refuted', changed.where, 'the tree is changed before the arguments are rejected at {}'.format('{}:{}'.format(*e.where) if isinstance(e.where, tuple) else e.where))
        elif kind == 'raise' and value_error(C, e.exc) is True or kind == 'implicit' and text.startswith('ValueError'):
            R.add(name, 'proved' if kind == 'raise' else 'equal', e.where, 'ValueError')
        elif kind == 'raise' and value_error(C, e.exc) is None:
            R.add(name, 'unknown', e.where, 'raises {}'.format(e.exc))
        elif kind == 'implicit':
            R.add(name, 'refuted' if text.split(':')[0] in ('TypeError', 'IndexError', 'AttributeError', 'KeyError', 'AxisError') else 'unknown', e.where, 'fails with {} instead of a ValueError'.format(text[:80]))
        else:
            R.add(name, 'refuted', e.where, 'raises {} instead of ValueError'.format(e.exc if kind == 'raise' else 'AssertionError'))


# ---------------------------------------------------------------- C28
ODD = 2 ** 53 + 1


def exact(v):
    """the numbers of a container, as Python objects"""
    v = v.values if isinstance(v, (Frame, Column)) else dense(v)
    return np.asarray(v).astype(object)


def put(M, at, x, dtype):
    W = np.array(M).astype(dtype)
    W[at] = x
    return W


def lossy_matrices(sizes=()):
    """[(description, container)]: containers with a number that float64 cannot hold"""
    from fractions import Fraction
    out = []
    for M, w in [(BASE, ''), (ONE, ', one column'), (BASE[:1], ', one row')] + list(sizes):
        last = (M.shape[0] - 1, M.shape[1] - 1)
        few = M.shape[0] > 100
        for at, p in (((0, 0), 'first'), (last, 'last')):
            for x in (ODD,) if few else (ODD, -ODD, 2 ** 62 + 1, 2 ** 63 - 1):
                n = '{} as {} element{}'.format(x, p, w)
                A = put(M, at, x, np.int64)
                out += [('int64 array with ' + n, A), ('list with ' + n, A.tolist())]
                if x == ODD:
                    out += [('int64 CSR matrix with ' + n, sp.csr_matrix(A)), ('int64 CSC matrix with ' + n, sp.csc_matrix(A)), ('integer data frame with ' + n, Frame(A, ['c{}'.format(j) for j in range(M.shape[1])])),
                            ('object array with ' + n, A.astype(object))]
            if not few:
                out += [('uint64 array with 2**64 - 1 as {} element{}'.format(p, w), put(M, at, 2 ** 64 - 1, np.uint64)), ('uint64 CSC matrix with 2**53 + 3 as {} element{}'.format(p, w), sp.csc_matrix(put(M, at, 2 ** 53 + 3, np.uint64))),
                        ('object array with 2**70 + 1 as {} element{}'.format(p, w), put(M, at, 2 ** 70 + 1, object)), ('object array with 1/3 as {} element{}'.format(p, w), put(M, at, Fraction(1, 3), object)),
                        ('complex array with 1+2j as {} element{}'.format(p, w), put(M, at, 1 + 2j, complex)), ('object data frame with 2**53 + 1 as {} element{}'.format(p, w), Frame(put(M, at, ODD, object), 'abc'[:M.shape[1]]))]
                if np.finfo(np.longdouble).nmant > 52:
                    out.append(('longdouble array with 1/3 as {} element{}'.format(p, w), put(M, at, np.longdouble(1) / 3, np.longdouble)))
        for i in range(M.shape[0] if not few else 0):
            out.append(('int64 array with 2**53 + 1 in row {}{}'.format(i, w), put(M, (i, i % M.shape[1]), ODD, np.int64)))
    return out


def lossy_targets(n):
    from fractions import Fraction
    y = np.resize(np.array([3, 0, 7, 1, 4]), n)
    out = []
    for at in (0, n - 1):
        for x in (ODD, -ODD, 2 ** 62 + 1):
            A = put(y, at, x, np.int64)
            out += [('int64 array of {} with {} at {}'.format(n, x, at), A), ('list of {} with {} at {}'.format(n, x, at), A.tolist()), ('series of {} with {} at {}'.format(n, x, at), Column(A)),
                    ('one-column int64 matrix of {} with {} at {}'.format(n, x, at), A.reshape(-1, 1))]
        out += [('object array of {} with 1/3 at {}'.format(n, at), put(y, at, Fraction(1, 3), object)), ('object array of {} with 2**70 + 1 at {}'.format(n, at), put(y, at, 2 ** 70 + 1, object))]
    return out


@rule('C28')
def lossless(R, tier):
    C = contexts()
    R.rules.append('raw summaries of fit and of the queries (nothing known about the containers): interpretation of the conditions of the rejecting paths over containers of every kind and element type that hold a '
                   'number without an exact float64, at the first, the last and every other position and at the sizes in the conditions: each is rejected with a ValueError, or what enters the recursion is still exact')
    for t in TREES:
        for prior in (True, False):
            guarded(R, t, lossless_fit, R, C, t, prior)
        for m in ('predict', 'predict_proba', 'prediction_paths', '_get_raw_leaf_data'):
            if is_method(C, t, m):
                guarded(R, '{} {}'.format(t, m), lossless_query, R, C, t, m)


def sized(c, en):
    ks = [int(k) for k in constants(c.g, [x for e in c.I.events[c.ctor_events:] if e.kind in ('raise', 'assert') and e.seq < en.seq for x, q in e.pc if x.op != 'loop'] +
                                    [v for v in en.vals.values() if is_node(v)]) if k == int(k) and 3 <= k <= 100000][:5]
    r = np.random.RandomState(6)
    return [(np.floor(r.normal(size=(n, d)) * 5), ', {} times {}'.format(n, d)) for k in ks for n, d in ([(k, 2), (k + 1, 2)] + ([(2, k + 1)] if k <= 500 else []) + ([(k // 2 + 1, 2), (k // 3 + 1, 3)] if k > 4 else []))]


def kept_or_rejected(R, name, C, c, en, lv, param, given):
    kind, e, changed, text = outcome(c, lv, en, stop=True)
    loc = en.where
    if kind == 'raise' and value_error(C, e.exc) is True or kind == 'implicit' and text.startswith('ValueError'):
        return R.add(name, 'proved' if kind == 'raise' else 'equal', e.where, 'ValueError')
    if kind == 'unknown' or kind == 'raise' and value_error(C, e.exc) is None:
        return R.add(name, 'unknown', e.where, text or 'raises {}'.format(e.exc))
    if kind == 'implicit':
        return R.add(name, 'refuted' if text.split(':')[0] in ('TypeError', 'IndexError', 'AttributeError', 'KeyError', 'AxisError', 'OverflowError') else 'unknown', e.where, 'fails with {} instead of a ValueError'.format(text))
    if kind != 'none':
        return R.add(name, 'refuted', e.where, 'raises {} instead of ValueError'.format(e.exc if kind == 'raise' else 'AssertionError'))
    try:
        v = exact(Raw(lv, {}, I=c.I)(en.vals[param])).reshape(-1)
    except (CantEval, BadValue) as ex:
        return R.add(name, 'unknown', loc, str(ex))
    w = exact(given).reshape(-1)
    if len(v) != len(w) or any(a != b for a, b in zip(v, w)):
        return R.add(name, 'refuted', en.vals[param].loc or loc, 'is neither rejected nor kept exactly')
    R.add(name, 'equal', loc, 'kept exactly')


def lossless_fit(R, C, t, prior):
    c = C.fit(t, 'raw', prior=prior)
    what = '{} fit{}'.format(t, '' if prior else ', default prior')
    R.saw(c)
    en = entry(c) if not c.error else None
    if en is None:
        return R.add(what, 'unknown', None, c.error or 'training recursion not found')
    y0 = target_values(is_classifier(t))
    k = (2 if is_classifier(t) else 0) if prior else 0
    mat = pick(c, en, role(c, en, lambda n: True, [c.X]), values_for(c, BASE.copy(), y0, None, k), BASE)
    tgt = pick(c, en, role(c, en, lambda n: True, [c.y]), values_for(c, BASE.copy(), y0, None, k), y0)
    if mat is None or tgt is None:
        return R.add(what, 'unknown', en.where, 'arguments of the recursion not found')
    extra = sized(c, en)
    for desc, X in lossy_matrices(extra):
        n = X.shape[0] if hasattr(X, 'shape') else len(X)
        if n < 2:
            continue
        y = np.resize(y0, n)
        y[:2] = [0, 1]
        kept_or_rejected(R, '{}: {}'.format(what, desc), C, c, en, values_for(c, X, y, None, k), mat, X)
    if not is_classifier(t):
        for M, w in [(BASE, '')] + extra:
            if len(M) < 2:
                continue
            for desc, y in lossy_targets(len(M)):
                kept_or_rejected(R, '{}: targets as {}'.format(what, desc), C, c, en, values_for(c, M.copy(), y, None, k), tgt, y)


def lossless_query(R, C, t, m):
    c = C.query(t, m, 'inner', 'raw')
    what = '{} {}'.format(t, m)
    R.saw(c)
    en = entry(c) if not c.error else None
    if en is None:
        return R.add(what, 'unknown', None, c.error or 'query recursion not found')
    w = width(c)

    def lv(X, d):
        r = values_for(c, X)
        if w is not None:
            r[w] = d
        return r
    mat = pick(c, en, role(c, en, lambda n: True, [c.X]), lv(BASE.copy(), 3), BASE)
    if mat is None:
        return R.add(what, 'unknown', en.where, 'arguments of the recursion not found')
    cases = lossy_matrices(sized(c, en))
    for x in (ODD, 2 ** 70 + 1):
        cases += [('the number {}'.format(x), x), ('flat list with {}'.format(x), [1, x, 2]), ('flat array with {}'.format(x), np.array([1, x, 2]))]
    for desc, X in cases:
        A = exact(X)
        kept_or_rejected(R, '{}: {}'.format(what, desc), C, c, en, lv(X, A.shape[-1] if A.ndim else 1), mat, X)


# ---------------------------------------------------------------- C24
MODEL_QUERIES = ('predict', 'predict_proba', '_get_raw_leaf_data', 'feature_importance', 'get_depth', 'get_n_leaves', 'is_leaf', 'is_fitted')


@rule('C24')
def progress_and_names(R, tier):
    C = contexts()
    R.rules.append('dependence analysis of the value graph of training: no attribute that a prediction, count or importance reads, and no argument of the recursion but the flag itself, depends on the progress '
                   'flag or on the names; every print is controlled by the flag; the names that enter the recursion are, for every container, the given ones, else the columns, else generated')
    for t in TREES:
        read = set()
        for m in MODEL_QUERIES:
            if not is_method(C, t, m):
                continue
            for s in ('leaf', 'inner'):
                q = C.query(t, m, s, 'ndarray')
                if not q.error:
                    read |= {e.name for e in q.I.events[q.ctor_events:] if e.kind == 'getattr' and (e.obj is q.obj or e.obj in q.kids.values())}
        shown = set()
        for m in ('__str__', 'prediction_paths'):
            for s in ('leaf', 'inner') if is_method(C, t, m) else ():
                q = C.query(t, m, s, 'ndarray')
                if not q.error:
                    shown |= {e.name for e in q.I.events[q.ctor_events:] if e.kind == 'getattr' and (e.obj is q.obj or e.obj in q.kids.values())}
        for kind in ('ndarray', 'csc', 'csr', 'inner ndarray', 'inner csc'):
            c = C.inner_fit(t, kind[6:]) if kind.startswith('inner') else C.fit(t, kind)
            name = '{} {}'.format(t, kind)
            guarded(R, name, flag_one, R, C, t, c, kind, name, read, shown)
        guarded(R, t, labels_one, R, C, t)
        for m in MODEL_QUERIES:
            if is_method(C, t, m):
                guarded(R, '{} {}'.format(t, m), prints_one, R, C.query(t, m, 'inner', 'ndarray'), '{} {}'.format(t, m))


def inner_param(c, root, which):
    """the parameter of an inner training step that stands for one of fit's arguments"""
    en = entry(root)
    if en is None:
        return None
    for p, n in en.vals.items():
        if n is which:
            return c.args.get(p), p
    return None


def flag_one(R, C, t, c, kind, name, read, shown):
    R.saw(c)
    if c.error:
        return R.add(name, 'unknown', None, c.error)
    loc = (c.func.module.rel, c.func.node.lineno)
    if kind.startswith('inner'):
        root = C.fit(t, kind[6:])
        v, n = inner_param(c, root, root.verbose), inner_param(c, root, root.names)
        verbose, names = v and v[0], n and n[0]
        pv, pn = v and v[1], n and n[1]
    else:
        verbose, names, pv, pn = c.verbose, c.names, None, None
        en = entry(c)
        if en is not None:
            pv = next((p for p, x in en.vals.items() if x is verbose), None)
            pn = next((p for p, x in en.vals.items() if x is names), None)
    for src, what, own in ((verbose, 'the progress flag', pv), (names, 'the names', pn)):
        if src is None or not is_node(src):
            R.add('{}: independent of {}'.format(name, what), 'unknown', loc, 'not passed on')
            continue
        hit = None
        n = 0
        for e in c.I.events[c.ctor_events:]:
            if e.kind == 'setattr' and e.name in (read if src is names else read | shown):
                n += 1
                if depends_deep(c, e.val, src) or any(depends_deep(c, p, src) for p, q in e.pc):
                    hit = hit or (e, 'attribute {}'.format(e.name), e.val)
            elif e.kind == 'rcall':
                n += 1
                if any(depends_deep(c, p, src) for p, q in e.pc):
                    hit = hit or (e, 'whether a child is trained', None)
                for p, x in e.vals.items():
                    if is_node(x) and p != own and depends_deep(c, x, src):
                        hit = hit or (e, 'argument {} of the recursion'.format(p), x)
        for (o, a), x in (c.state.heap.items() if c.state is not None else ()):
            if a in (read if src is names else read | shown) and (o is c.obj or o.op == 'new') and is_node(x) and hit is None:
                n += 1
                if depends_deep(c, c.I.deref(x, c.state), src):
                    hit = (None, 'attribute {}'.format(a), x)
        if hit is None:
            R.add('{}: independent of {}'.format(name, what), 'proved', loc, '{} values'.format(n))
        else:
            R.add('{}: independent of {}'.format(name, what), flag_matters(c, src, hit), hit[0].where if hit[0] is not None else loc, '{} depends on {}'.format(hit[1], what))
    if c.func.name != 'fit' or True:
        prints_one(R, c, name, verbose)


def flag_matters(c, src, hit):
    """does the flag select between different values? A condition that leads to the same value on both sides has been simplified away, so a remaining dependence through a branch on the flag is real"""
    e, what, x = hit
    if src.args[0] != 'verbose' and src.op == 'param' and 'verbose' not in src.args[0]:
        return 'refuted'
    if e is not None and any(decides(p, src) for p, q in e.pc):
        return 'refuted'
    if is_node(x):
        for n in deep(c, x):
            if n.op == 'gamma' and decides(n.args[0], src) and n.args[1] is not n.args[2]:
                return 'refuted'
    return 'unknown'


def prints_one(R, c, name, verbose=None):
    if c.error:
        return R.add('{}: prints nothing'.format(name), 'unknown', None, c.error)
    n = 0
    for e in c.I.events[c.ctor_events:]:
        if e.kind == 'print' or e.kind == 'dyncall' and e.d.get('name') in ('sys.stdout.write', 'stdout.write'):
            n += 1
            if verbose is not None and any(p is verbose and q for p, q in e.pc):
                continue
            free = all(p.op == 'loop' or verbose is not None and not depends(c, p, verbose) for p, q in e.pc)
            return R.add('{}: prints nothing'.format(name), 'refuted' if not e.pc or free or verbose is None else 'unknown', e.where, 'prints without the progress flag')
    R.add('{}: prints nothing unasked'.format(name), 'proved', (c.func.module.rel, c.func.node.lineno), '{} prints controlled by the flag'.format(n))


def labels_one(R, C, t):
    c = C.fit(t, 'raw')
    R.saw(c)
    if c.error:
        return R.add('{}: names'.format(t), 'unknown', None, c.error)
    e = entry(c)
    if e is None:
        return R.add('{}: names'.format(t), 'unknown', None, 'training recursion not found')
    f = c.func.node
    d = dict(zip([a.arg for a in f.args.args][len(f.args.args) - len(f.args.defaults):], f.args.defaults))
    import ast
    for p, want in (('verbose', False), ('feature_names', None)):
        if p in d and isinstance(d[p], ast.Constant):
            R.add('{}: default of {}'.format(t, p), 'proved' if not d[p].value else 'refuted', (c.func.module.rel, f.lineno), repr(d[p].value))
    y0 = target_values(is_classifier(t))
    k = 2 if is_classifier(t) else 0
    given = ['first', 'second', 'third']
    lv0 = values_for(c, BASE.copy(), y0, given, k)
    par = None
    for p, n in e.vals.items():
        if is_node(n) and depends(c, n, c.names):
            try:
                if list(Raw(lv0, {}, I=c.I)(n)) == given:
                    par = p
            except (CantEval, BadValue, TypeError):
                continue
    if par is None:
        used = any(depends(c, x, c.names) for x in e.vals.values() if is_node(x))
        return R.add('{}: names'.format(t), 'unknown', e.where, 'names do not enter the recursion' if not used else 'not found')
    gen = ['x0', 'x1', 'x2']
    cases = []
    frame = Frame(BASE, ['height', 'width', 'x0'])
    for w, X in (('array', BASE.copy()), ('list', BASE.tolist()), ('CSR matrix', sp.csr_matrix(BASE)), ('CSC matrix', sp.csc_matrix(BASE)), ('data frame', frame), ('int array', BASE.astype(int))):
        cases.append(('{} without names'.format(w), X, None, ['height', 'width', 'x0'] if X is frame else gen))
        for gw, g in (('list', given), ('tuple', tuple(given)), ('array', np.array(given)), ('list of numbers', [7, 0, 2])):
            cases.append(('{} with a {} of names'.format(w, gw), X, g, list(g)))
    cases += [('data frame with its columns named in another order', frame, ['x0', 'height', 'width'], ['x0', 'height', 'width']), ('array with generated names in another order', BASE.copy(), ['x2', 'x0', 'x1'], ['x2', 'x0', 'x1'])]
    mat = pick(c, e, role(c, e, lambda n: True, [c.X]), lv0, BASE)
    cases.append(('data frame with numbered columns', Frame(BASE, [2, 0, 1]), None, [2, 0, 1]))
    one = np.array([[1.0], [0.0], [2.0], [3.0], [4.0]])
    cases += [('one-column array without names', one, None, ['x0']), ('one-column data frame', Frame(one, ['size']), None, ['size']), ('wide array without names', np.hstack([BASE, BASE, BASE, BASE]), None, ['x%d' % i for i in range(12)])]
    for what, X, g, want in cases:
        lv = values_for(c, X, y0, g, k)
        name = '{}: names of {}'.format(t, what)
        try:
            v = Raw(lv, {}, I=c.I)(e.vals[par])
            got = [v[j] for j in range(len(want))]
            ok = len(v) == len(want) and all(str(a) == str(b) for a, b in zip(got, want))
            if mat is not None and ok and not np.array_equal(dense(Raw(lv, {}, I=c.I)(e.vals[mat])), dense(np.asarray(X) if not sp.issparse(X) else X)):
                R.add(name, 'refuted', e.vals[mat].loc or e.where, 'the names change the matrix')
                continue
        except CantEval as ex:
            R.add(name, 'unknown', e.where, str(ex))
            continue
        except Exception as ex:
            R.add(name, 'refuted', e.where, 'fails: {}'.format(ex))
            continue
        R.add(name, 'proved' if ok else 'refuted', e.vals[par].loc or e.where, 'as expected' if ok else 'names are {} instead of {}'.format(short(list(v)), want))
