"""Models of the numpy / scipy / pandas / builtin operations the package uses, mapped to canonical value-graph operations."""
import ast
import math

from .graph import is_node

ALIASES = {
    'np': 'numpy',
}

CONSTANTS = {
    'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.newaxis': None, 'numpy.inf': math.inf, 'math.inf': math.inf, 'numpy.Inf': math.inf, 'numpy.infty': math.inf, 'numpy.e': math.e, 'math.e': math.e,
    'builtins.None': None, 'builtins.True': True, 'builtins.False': False, 'builtins.Ellipsis': Ellipsis,
}

DTYPES = {'float': 'float64', 'int': 'int64', 'bool': 'bool', 'object': 'object', 'numpy.float64': 'float64', 'numpy.float32': 'float32', 'numpy.double': 'float64',
          'numpy.int64': 'int64', 'numpy.int32': 'int32', 'numpy.int16': 'int16', 'numpy.int8': 'int8', 'numpy.uint8': 'uint8', 'numpy.uint16': 'uint16',
          'numpy.uint32': 'uint32', 'numpy.uint64': 'uint64', 'numpy.intp': 'int64', 'numpy.bool_': 'bool', 'numpy.float16': 'float16', 'numpy.longdouble': 'float128',
          'numpy.float_': 'float64', 'numpy.int_': 'int64', 'numpy.object_': 'object', 'numpy.single': 'float32', 'numpy.half': 'float16', 'numpy.float128': 'float128'}


def canon(d):
    for pre, to in (('scipy.sparse._csr.', 'scipy.sparse.'), ('scipy.sparse._csc.', 'scipy.sparse.'), ('scipy.sparse.csr.', 'scipy.sparse.'),
                    ('pandas.core.frame.', 'pandas.'), ('numpy.random.mtrand.', 'numpy.random.')):
        if d.startswith(pre):
            d = to + d[len(pre):]
    return d


def dtype_name(n):
    if n.op == 'ext':
        d = n.args[0]
        if d.startswith('builtins.'):
            d = d[9:]
        return DTYPES.get(d)
    if n.op == 'const' and isinstance(n.args[0], str):
        s = n.args[0]
        return {'float': 'float64', 'int': 'int64', 'f8': 'float64', 'f4': 'float32', 'd': 'float64', 'f': 'float32', 'O': 'object'}.get(s, s if s in DTYPES.values() else None)
    return None


def as_dtype(I, n):
    if n.op == 'gamma':
        return I.g.mk('gamma', n.args[0], as_dtype(I, n.args[1]), as_dtype(I, n.args[2]))
    d = dtype_name(n)
    return n if d is None else I.g.const(d)


# methods of sparse matrices that return something new
SPARSE_PURE = {'tocoo', 'tolil', 'todok', 'todia', 'getcol', 'getrow', 'getnnz', 'count_nonzero', 'nonzero', 'getcol', 'minimum', 'maximum', 'mean', 'multiply', 'power'}
METHODS = {'sum', 'cumsum', 'max', 'min', 'argmax', 'argmin', 'argsort', 'mean', 'prod', 'std', 'var', 'reshape', 'ravel', 'flatten', 'squeeze', 'astype', 'copy', 'dot', 'toarray',
           'todense', 'tocsc', 'tocsr', 'nonzero', 'any', 'all', 'take', 'item', 'tolist', 'to_numpy', 'transpose', 'append', 'extend', 'keys', 'items', 'format',
           'join', 'clip', 'sort', 'fill', 'pop', 'insert', 'remove', 'clear', 'update', 'setdefault', 'get', 'strip', 'split', 'startswith', 'endswith', 'lower', 'upper',
           'getcol', 'getrow', 'swapaxes', 'repeat', 'round', 'cumprod', 'searchsorted', 'put', 'partition', 'resize', 'itemset', 'sort_values', 'sort_indices', 'eliminate_zeros',
           'sum_duplicates', 'setflags', 'compress', 'diagonal', 'conj', 'is_integer', 'index', 'count', 'reverse', 'add', 'discard', 'popitem', 'tobytes', 'view', 'isalpha', 'nunique', 'unique', 'multiply', 'power'}
ATTRS = {'shape', 'ndim', 'T', 'size', 'dtype', 'values', 'columns', 'A', 'A1', 'flat', 'nnz', 'data', 'indices', 'indptr', 'real', 'index', 'iloc', 'loc', 'itemsize', 'nbytes', 'flags'}

PURE = {'sqrt': 'sqrt', 'log': 'log', 'exp': 'exp', 'cos': 'cos', 'sin': 'sin', 'arccos': 'arccos', 'acos': 'arccos', 'floor': 'floor', 'ceil': 'ceil', 'tan': 'tan', 'arctan2': 'arctan2',
        'isnan': 'isnan', 'isfinite': 'isfinite', 'isinf': 'isinf', 'sign': 'sign', 'log1p': 'log1p', 'expm1': 'expm1', 'arcsin': 'arcsin', 'rint': 'rint', 'log2': 'log2', 'log10': 'log10'}


def ext_kind(I, n):
    return I.g.kind(n)


KIND_CLASSES = {
    'ndarray': {'numpy.ndarray'}, 'csr': {'scipy.sparse.csr_matrix', 'scipy.sparse.spmatrix'}, 'csc': {'scipy.sparse.csc_matrix', 'scipy.sparse.spmatrix'},
    'list': {'list', 'collections.abc.Sequence', 'collections.abc.Iterable', 'typing.Sequence'}, 'tuple': {'tuple', 'collections.abc.Sequence', 'collections.abc.Iterable'}, 'df': {'pandas.DataFrame', 'pandas.core.frame.DataFrame'},
    'series': {'pandas.Series'}, 'str': {'str'}, 'dict': {'dict'}, 'none': set(), 'bool': {'bool', 'int'}, 'int': None, 'float': None,
}
KNOWN_CLASSES = set().union(*[v for v in KIND_CLASSES.values() if v]) | {'numpy.matrix', 'scipy.sparse.csr_array', 'scipy.sparse.csc_array', 'scipy.sparse.coo_matrix',
                                                                        'scipy.sparse.lil_matrix', 'scipy.sparse.dok_matrix', 'scipy.sparse.sparray', 'numpy.generic'}


def isinstance_node(I, x, cls, fr):
    g = I.g
    if cls.op in ('tuple', 'list'):
        r = g.false
        for c in cls.args:
            r = g.mk('or', r, isinstance_node(I, x, c, fr))
        return r
    if x.op == 'gamma':
        return g.mk('gamma', x.args[0], isinstance_node(I, x.args[1], cls, fr), isinstance_node(I, x.args[2], cls, fr))
    if cls.op == 'ext':
        d = canon(cls.args[0])
        d = d[9:] if d.startswith('builtins.') else d
        k = g.kind(x)
        ks = KIND_CLASSES.get(k)
        if ks is not None and d in KNOWN_CLASSES:
            return g.const(d in ks)
        if x.op in ('new', 'cls', 'fn', 'lam', 'bound') and d in KNOWN_CLASSES:
            return g.false
    if cls.op == 'cls':
        t = I.type_of(x)
        if t is not None:
            return g.const(cls.args[0] in t.mro())
        if g.kind(x) in KIND_CLASSES and g.kind(x) != 'unknown':
            return g.false
    return g.raw('isinstance', x, cls)


def attr(I, d, name, raw, st):
    """attribute of a (dereferenced) array-like value; None if unknown"""
    g = I.g
    k = g.kind(d)
    if name in ('shape', 'ndim', 'T', 'size', 'dtype', 'A', 'A1', 'flat', 'real', 'nnz') and d.op not in ('ext', 'cls', 'fn') and I.type_of(raw) is None:
        if name == 'shape':
            r = g.rank(d)
            if r is not None and r <= 3 and k != 'unknown':
                return g.tup(*[g.dim(d, i) for i in range(r)])
            return g.raw('shape', d)
        if name == 'ndim':
            return g.mk('ndim', d)
        if name == 'T':
            v = g.mk('T', d)
            return v
        if name == 'size':
            return g.mk('size', d)
        if name == 'dtype':
            return g.mk('dtype', d)
        if name == 'A':
            return g.mk('toarray', d)
        if name == 'A1':
            return g.mk('ravel', g.mk('toarray', d))
        if name == 'nnz':
            return g.raw('nnz', d)
        if name == 'flat':
            return g.mk('ravel', d)
        if name == 'real':
            return d
    if name == 'values' and (k in ('df', 'series')):
        v = g.raw('values', d)
        f = g.facts.get(d.id, {})
        g.set_fact(v, kind='ndarray', rank=2 if k == 'df' else 1, **({'dtype': f['dtype']} if 'dtype' in f else {}))
        return v
    if name == 'columns' and k == 'df':
        return g.raw('columns', d)
    return None


def _ax(I, args, kw, st, pos=0):
    if 'axis' in kw:
        return I.deref(kw['axis'], st)
    if len(args) > pos:
        return args[pos]
    return I.g.none


def _out_check(I, kw, fr, e, st, val):
    if 'out' in kw and not (kw['out'].op == 'const' and kw['out'].args[0] is None):
        t = kw['out']
        ts = list(t.args) if t.op == 'tuple' else [t]
        for x in ts:
            I.ev('inplace', fr, e, target=x, val=val, maybe=False, how='out=')
            st.content[x] = val
        return ts[0]
    return None


def call(I, f, args, kwargs, fr, st, e):
    """Returns the result node or None (unknown callee)."""
    g = I.g
    if any(isinstance(a, tuple) for a in args):
        return None
    if f.op == 'ext':
        name = f.args[0]
        h = EXT.get(name)
        if h is None and name.startswith('math.'):
            h = EXT.get('numpy.' + name[5:])
        if h is None and name.startswith('builtins.'):
            h = BUILTIN.get(name[9:])
            if h is None:
                I.ev('extcall', fr, e, name=name, args=args, vals=[I.deref(a, st) for a in args], kwargs=kwargs)
                if name[9:] in EXC_NAMES:
                    return g.raw('exc_obj', name[9:])
                I.unmodelled.setdefault(name, (fr.module.rel, e.lineno))
                return _opaque(I, name, args, kwargs, st)
        if h is None:
            I.ev('extcall', fr, e, name=name, args=args, vals=[I.deref(a, st) for a in args], kwargs=kwargs)
            I.unmodelled.setdefault(name, (fr.module.rel, e.lineno))
            v = _opaque(I, name, args, kwargs, st)
            _out_check(I, kwargs, fr, e, st, v)
            return v
        I.ev('extcall', fr, e, name=name, args=args, vals=[I.deref(a, st) for a in args], kwargs=kwargs)
        r = h(I, [I.deref(a, st) for a in args], kwargs, fr, st, e, args)
        if r is None:
            v = _opaque(I, name, args, kwargs, st)
            I.unmodelled.setdefault(name, (fr.module.rel, e.lineno))
            return v
        o = _out_check(I, kwargs, fr, e, st, r)
        return o if o is not None else r
    if f.op == 'extm':
        obj, name = f.args
        return method(I, obj, name, args, kwargs, fr, st, e)
    return None


def _opaque(I, name, args, kwargs, st):
    g = I.g
    vals = [I.deref(a, st) for a in args] + [I.deref(kwargs[k], st) for k in sorted(kwargs)]
    if name.startswith(('numpy.random.', 'random.', 'optuna.', 'scipy.optimize', 'time.', 'secrets.', 'uuid.', 'os.', 'datetime.')):
        return g.raw('call', name, g.uid(), *vals)
    return g.raw('call', name, tuple(sorted(kwargs)), *vals)


EXC_NAMES = {'ValueError', 'TypeError', 'KeyError', 'NotImplementedError', 'RuntimeError', 'AttributeError', 'IndexError', 'Exception', 'AssertionError', 'StopIteration', 'OSError'}

EXT = {}
BUILTIN = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def bi(*names):
    def deco(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return deco


# each handler: (I, dereferenced args, kwargs raw, frame, state, ast, raw args)

def kwd(I, kw, st, name, default=None):
    return I.deref(kw[name], st) if name in kw else default


def simple(op, n=1):
    def h(I, a, kw, fr, st, e, raw):
        if len(a) < n:
            return None
        return I.g.mk(op, *a[:n])
    return h


for _n, _o in PURE.items():
    EXT['numpy.' + _n] = simple(_o, 2 if _n == 'arctan2' else 1)
EXT['numpy.abs'] = EXT['numpy.absolute'] = EXT['numpy.fabs'] = BUILTIN['abs'] = simple('abs')
EXT['numpy.square'] = lambda I, a, kw, fr, st, e, raw: I.g.mk('pow', a[0], I.g.const(2))
EXT['numpy.negative'] = simple('neg')
EXT['numpy.power'] = EXT['math.pow'] = simple('pow', 2)
BUILTIN['pow'] = simple('pow', 2)
EXT['numpy.add'] = simple('add', 2)
EXT['numpy.subtract'] = simple('sub', 2)
EXT['numpy.multiply'] = simple('mul', 2)
EXT['numpy.divide'] = EXT['numpy.true_divide'] = simple('div', 2)
EXT['numpy.mod'] = EXT['numpy.remainder'] = simple('mod', 2)
EXT['numpy.floor_divide'] = simple('floordiv', 2)
EXT['numpy.less'] = simple('lt', 2)
EXT['numpy.less_equal'] = simple('le', 2)
EXT['numpy.greater'] = lambda I, a, kw, fr, st, e, raw: I.g.mk('lt', a[1], a[0])
EXT['numpy.greater_equal'] = lambda I, a, kw, fr, st, e, raw: I.g.mk('le', a[1], a[0])
EXT['numpy.equal'] = simple('eq', 2)
EXT['numpy.not_equal'] = lambda I, a, kw, fr, st, e, raw: I.g.mk('not', I.g.mk('eq', a[0], a[1]))
EXT['numpy.logical_not'] = EXT['numpy.invert'] = simple('not')
EXT['numpy.logical_and'] = simple('and', 2)
EXT['numpy.logical_or'] = simple('or', 2)
EXT['numpy.maximum'] = EXT['numpy.fmax'] = simple('maximum', 2)
EXT['numpy.minimum'] = EXT['numpy.fmin'] = simple('minimum', 2)
EXT['scipy.special.gammaln'] = EXT['scipy.special.loggamma'] = EXT['math.lgamma'] = simple('gammaln')
EXT['scipy.special.betaln'] = simple('betaln', 2)
EXT['numpy.flatnonzero'] = simple('nonzero')
EXT['numpy.nan_to_num'] = None


def fresh(I, v, st):
    return I.alloc(v, st)


@ext('numpy.nan_to_num')
def _ntn(I, a, kw, fr, st, e, raw):
    v = I.g.mk('nan_to_num', a[0])
    c = kwd(I, kw, st, 'copy', a[1] if len(a) > 1 else I.g.true)
    if c.op == 'const' and c.args[0] is False:
        I.ev('inplace', fr, e, target=raw[0], val=v, maybe=False, how='nan_to_num(copy=False)')
        st.content[raw[0]] = v
        return raw[0]
    if c.op != 'const':
        # copies or writes into its argument, depending on the run
        I.ev('inplace', fr, e, target=raw[0], val=v, maybe=True, how='nan_to_num(copy=...)')
        st.content[raw[0]] = I.g.mk('gamma', c, a[0], v)
        return I.g.mk('gamma', c, fresh(I, v, st), raw[0])
    return fresh(I, v, st)


@ext('numpy.where')
def _where(I, a, kw, fr, st, e, raw):
    if len(a) == 1:
        return I.g.tup(I.g.mk('nonzero', a[0]))
    if len(a) == 3:
        g = I.g
        if g.rank(a[0]) == 0 and g.kind(a[0]) in ('bool', 'int'):
            return g.mk('gamma', a[0], a[1], a[2])
        return g.mk('where', *a)


@ext('numpy.nonzero')
def _nonzero(I, a, kw, fr, st, e, raw):
    return I.g.tup(I.g.mk('nonzero', a[0]))


@ext('numpy.argwhere')
def _argwhere(I, a, kw, fr, st, e, raw):
    return I.g.raw('argwhere', a[0])


@ext('numpy.diff', 'numpy.ediff1d')
def _diff(I, a, kw, fr, st, e, raw):
    if len(a) > 1 or kw:
        ax = kwd(I, kw, st, 'axis')
        if len(a) == 1 and ax is not None and I.g.rank(a[0]) == 1:
            return I.g.mk('diff', a[0])
        return None
    return I.g.mk('diff', a[0])


@ext('numpy.argsort')
def _argsort(I, a, kw, fr, st, e, raw):
    ax = _ax(I, a, kw, st, 1)
    if ax is I.g.none:
        ax = I.g.const(-1)
    return I.g.mk('argsort', a[0], ax)


@ext('numpy.sort')
def _sort(I, a, kw, fr, st, e, raw):
    return fresh(I, I.g.mk('sort', a[0]), st)


def _shape(I, n):
    g = I.g
    if n.op == 'list':
        return g.tup(*n.args)
    if g.kind(n) == 'int':
        return g.tup(n)
    return n


def _alloc(op):
    def h(I, a, kw, fr, st, e, raw):
        g = I.g
        sh = a[0] if a else kwd(I, kw, st, 'shape')
        if sh is None:
            return None
        rest = a[1:]
        if op == 'full':
            fill = rest[0] if rest else kwd(I, kw, st, 'fill_value')
            rest = rest[1:]
        dt = kwd(I, kw, st, 'dtype', rest[0] if rest else None)
        dt = as_dtype(I, dt) if dt is not None else g.const('float64')
        v = g.mk(op, _shape(I, sh), *( [fill] if op == 'full' else []), dt)
        return fresh(I, v, st)
    return h


for _n in ('zeros', 'ones', 'empty', 'full'):
    EXT['numpy.' + _n] = _alloc(_n)


def _alloc_like(op):
    def h(I, a, kw, fr, st, e, raw):
        g = I.g
        r = g.rank(a[0])
        sh = g.tup(*[g.dim(a[0], k) for k in range(r)]) if r is not None else g.raw('shape', a[0])
        dt = kwd(I, kw, st, 'dtype')
        dt = as_dtype(I, dt) if dt is not None else g.mk('dtype', a[0])
        v = g.mk(op, sh, *([a[1]] if op == 'full' else []), dt)
        return fresh(I, v, st)
    return h


for _n in ('zeros', 'ones', 'empty', 'full'):
    EXT['numpy.' + _n + '_like'] = _alloc_like(_n)


@ext('numpy.arange')
def _arange(I, a, kw, fr, st, e, raw):
    g = I.g
    dt = kwd(I, kw, st, 'dtype', a[3] if len(a) > 3 else None)
    kw = {k: v for k, v in kw.items() if k != 'dtype'}
    if kw:
        return None
    one, zero = g.const(1), g.const(0)
    if len(a) == 1:
        r = g.mk('arange', zero, a[0], one)
    elif len(a) == 2:
        r = g.mk('arange', a[0], a[1], one)
    else:
        r = g.mk('arange', *a[:3])
    return fresh(I, typed(I, r, dt), st)


def typed(I, v, dt):
    """v computed with an explicit element type"""
    if dt is None or dt.op == 'const' and dt.args[0] is None:
        return v
    dt = as_dtype(I, dt)
    return I.g.stored(dt, v)


def _reduce(op):
    def h(I, a, kw, fr, st, e, raw):
        g = I.g
        if set(kw) - {'axis', 'dtype', 'initial', 'keepdims', 'out'}:
            return None
        if 'keepdims' in kw or 'initial' in kw:
            return None
        return typed(I, g.mk(op, a[0], _ax(I, a, kw, st, 1)), kwd(I, kw, st, 'dtype'))
    return h


for _n, _o in dict(sum='sum', max='max', amax='max', min='min', amin='min', argmax='argmax', argmin='argmin', mean='mean', average='mean', prod='prod', any='any', all='all').items():
    EXT['numpy.' + _n] = _reduce(_o)


@ext('numpy.cumsum')
def _cumsum(I, a, kw, fr, st, e, raw):
    ax = _ax(I, a, kw, st, 1)
    if ax is not I.g.none and not I.g.rank(a[0]) == 1:
        return None
    return typed(I, I.g.mk('cumsum', a[0]), kwd(I, kw, st, 'dtype'))


@ext('numpy.unique')
def _unique(I, a, kw, fr, st, e, raw):
    if kw or len(a) > 1:
        return None
    return I.g.mk('unique', a[0])


@ext('numpy.isin', 'numpy.in1d')
def _isin(I, a, kw, fr, st, e, raw):
    kw = {k: v for k, v in kw.items() if k not in ('assume_unique', 'kind')}
    inv = kw.pop('invert', None)
    v = I.g.mk('isin', a[0], a[1])
    if inv is not None:
        i = I.deref(inv, st)
        if i.op != 'const':
            return None
        if i.args[0]:
            v = I.g.mk('not', v)
    return v


@ext('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.asfarray')
def _array(I, a, kw, fr, st, e, raw):
    g = I.g
    name = I_name(e)
    v = a[0]
    v = g.mk('asarray', v)
    dt = kwd(I, kw, st, 'dtype', a[1] if len(a) > 1 else None)
    if dt is not None and not (dt.op == 'const' and dt.args[0] is None):
        v = g.mk('astype', v, as_dtype(I, dt))
    is_copy = name in ('array', 'copy')
    c = kwd(I, kw, st, 'copy')
    if c is not None and c.op != 'const' and v is a[0] and g.kind(a[0]) != 'list':
        return g.mk('gamma', c, fresh(I, v, st), raw[0])
    if c is not None and c.op == 'const' and c.args[0] is not True:
        is_copy = False
    if is_copy or a[0].op in ('list', 'map', 'listcat') or g.kind(a[0]) == 'list':
        return fresh(I, v, st)
    if v is a[0]:
        return raw[0]
    return v


def I_name(e):
    return e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')


@ext('numpy.expand_dims')
def _expand(I, a, kw, fr, st, e, raw):
    ax = _ax(I, a, kw, st, 1)
    return I.g.mk('expand_dims', a[0], ax)


@ext('numpy.squeeze')
def _squeeze(I, a, kw, fr, st, e, raw):
    ax = _ax(I, a, kw, st, 1)
    r = I.g.mk('squeeze', a[0]) if ax is I.g.none else I.g.mk('squeeze', a[0], ax)
    return raw[0] if r is a[0] else r


@ext('numpy.ravel')
def _ravel(I, a, kw, fr, st, e, raw):
    r = I.g.mk('ravel', a[0])
    return raw[0] if r is a[0] else r


@ext('numpy.reshape')
def _reshape(I, a, kw, fr, st, e, raw):
    return I.g.mk('reshape', a[0], a[1])


@ext('numpy.transpose')
def _tr(I, a, kw, fr, st, e, raw):
    return I.g.mk('T', a[0]) if len(a) == 1 and not kw else None


@ext('numpy.broadcast_to')
def _bt(I, a, kw, fr, st, e, raw):
    return I.g.mk('broadcast_to', a[0], _shape(I, a[1]))


@ext('numpy.atleast_1d')
def _a1(I, a, kw, fr, st, e, raw):
    if (I.g.rank(a[0]) or 0) >= 1:
        return raw[0]
    return I.g.raw('atleast_1d', a[0])


@ext('numpy.atleast_2d')
def _a2(I, a, kw, fr, st, e, raw):
    if (I.g.rank(a[0]) or 0) >= 2:
        return raw[0]
    return I.g.raw('atleast_2d', a[0])


@ext('numpy.dot', 'numpy.matmul', 'numpy.inner', 'numpy.vdot')
def _dot(I, a, kw, fr, st, e, raw):
    g = I.g
    if I_name(e) in ('inner', 'vdot') and not (g.rank(a[0]) == 1 and g.rank(a[1]) == 1):
        return None
    if g.rank(a[0]) == 0 or g.rank(a[1]) == 0:
        return g.mk('mul', a[0], a[1])
    return g.mk('matmul', a[0], a[1])


@ext('numpy.linalg.norm')
def _norm(I, a, kw, fr, st, e, raw):
    ax = kwd(I, kw, st, 'axis', I.g.none)
    if len(a) > 1 or set(kw) - {'axis'}:
        if len(a) > 1 or kwd(I, kw, st, 'ord') is not None or 'keepdims' in kw:
            return None
    return I.g.mk('norm', a[0], ax)


@ext('numpy.clip')
def _clip(I, a, kw, fr, st, e, raw):
    if len(a) < 3:
        return None
    return I.g.mk('clip', *a[:3])


@ext('numpy.round', 'numpy.around')
def _round(I, a, kw, fr, st, e, raw):
    return I.g.mk('round', *a)


@ext('numpy.take')
def _take(I, a, kw, fr, st, e, raw):
    ax = _ax(I, a, kw, st, 2)
    if I.g.rank(a[0]) == 1 or I.g.num(ax) == 0:
        return I.g.mk('index', a[0], a[1])
    if I.g.num(ax) == 1:
        return I.g.mk('index', a[0], I.g.tup(I.g.slice(), a[1]))


@ext('numpy.compress', 'numpy.extract')
def _compress(I, a, kw, fr, st, e, raw):
    if I.g.rank(a[1]) == 1:
        return I.g.mk('index', a[1], a[0])


@ext('numpy.count_nonzero')
def _cnz(I, a, kw, fr, st, e, raw):
    return I.g.mk('sum', a[0], _ax(I, a, kw, st, 1)) if I.g.is_boolean(a[0]) else None


@ext('numpy.bincount')
def _bincount(I, a, kw, fr, st, e, raw):
    ml = kwd(I, kw, st, 'minlength', a[2] if len(a) > 2 else I.g.const(0))
    if 'weights' in kw or (len(a) > 1 and a[1] is not I.g.none):
        return None
    return I.g.mk('bincount', a[0], ml)


@ext('numpy.vstack', 'numpy.row_stack')
def _vstack(I, a, kw, fr, st, e, raw):
    return I.g.mk('vstack', a[0])


@ext('numpy.column_stack')
def _cstack(I, a, kw, fr, st, e, raw):
    return I.g.mk('columnstack', a[0])


@ext('numpy.concatenate', 'numpy.hstack')
def _concat(I, a, kw, fr, st, e, raw):
    if I_name(e) == 'concatenate' and (len(a) > 1 or kw):
        return None
    return I.g.raw('concat', a[0])


@ext('numpy.isscalar')
def _isscalar(I, a, kw, fr, st, e, raw):
    k = I.g.kind(a[0])
    if k in ('ndarray', 'list', 'csr', 'csc', 'df', 'tuple', 'series'):
        return I.g.false
    if k in ('int', 'float', 'str', 'bool'):
        return I.g.true
    return I.g.raw('isscalar', a[0])


@ext('numpy.ndim')
def _ndim(I, a, kw, fr, st, e, raw):
    return I.g.mk('ndim', a[0])


@ext('numpy.shape')
def _npshape(I, a, kw, fr, st, e, raw):
    return attr(I, a[0], 'shape', raw[0], st)


@ext('numpy.size')
def _npsize(I, a, kw, fr, st, e, raw):
    return I.g.mk('size', a[0])


for _d in ('float64', 'float32', 'int64', 'int32', 'double', 'intp', 'uint16', 'uint32', 'uint64'):
    def _mk(_d):
        def h(I, a, kw, fr, st, e, raw):
            if I.g.rank(a[0]) == 0 and I.g.kind(a[0]) in ('float', 'int') and _d in ('float64', 'double'):
                return a[0]
            return I.g.mk('astype', a[0], I.g.const(DTYPES.get('numpy.' + _d, _d)))
        return h
    EXT['numpy.' + _d] = _mk(_d)


@ext('scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix')
def _sparse(I, a, kw, fr, st, e, raw):
    g = I.g
    op = 'csr' if I_name(e) == 'csr_matrix' else 'csc'
    if not I_name(e).startswith('cs'):
        op = 'csc'
    if g.kind(a[0]) not in ('ndarray', 'csr', 'csc'):
        return None
    v = g.mk(op, a[0])
    return raw[0] if v is a[0] else v


@ext('scipy.sparse.issparse', 'scipy.sparse.isspmatrix')
def _issparse(I, a, kw, fr, st, e, raw):
    k = I.g.kind(a[0])
    if k in ('csr', 'csc'):
        return I.g.true
    if k != 'unknown':
        return I.g.false
    return I.g.raw('isinstance', a[0], I.g.raw('ext', 'scipy.sparse.spmatrix'))


@ext('scipy.sparse.isspmatrix_csr')
def _iscsr(I, a, kw, fr, st, e, raw):
    k = I.g.kind(a[0])
    return I.g.const(k == 'csr') if k != 'unknown' else None


@ext('scipy.sparse.isspmatrix_csc')
def _iscsc(I, a, kw, fr, st, e, raw):
    k = I.g.kind(a[0])
    return I.g.const(k == 'csc') if k != 'unknown' else None


# ---- builtins
@bi('len')
def _len(I, a, kw, fr, st, e, raw):
    return I.g.dim(a[0], 0)


@bi('range')
def _range(I, a, kw, fr, st, e, raw):
    g = I.g
    z, o = g.const(0), g.const(1)
    if len(a) == 1:
        return g.mk('range', z, a[0], o)
    if len(a) == 2:
        return g.mk('range', a[0], a[1], o)
    return g.mk('range', *a)


@bi('isinstance')
def _isinstance(I, a, kw, fr, st, e, raw):
    return isinstance_node(I, a[0], a[1], fr)


@bi('enumerate')
def _enumerate(I, a, kw, fr, st, e, raw):
    s = kwd(I, kw, st, 'start', a[1] if len(a) > 1 else I.g.const(0))
    r = st.content.get(raw[0], raw[0])
    return I.g.raw('enumerate', r if r.op in ('list', 'tuple', 'zip') else a[0], s)


@bi('zip')
def _zip(I, a, kw, fr, st, e, raw):
    rs = [st.content.get(x, x) for x in raw]
    return I.g.raw('zip', *[r if r.op in ('list', 'tuple') else x for r, x in zip(rs, a)])


@bi('reversed')
def _reversed(I, a, kw, fr, st, e, raw):
    r = st.content.get(raw[0], raw[0])
    return I.g.raw('reversed', r if r.op in ('list', 'tuple') else a[0])


@bi('tuple')
def _tuple(I, a, kw, fr, st, e, raw):
    g = I.g
    if not a:
        return g.tup()
    if a[0].op in ('tuple', 'list'):
        return g.tup(*st.content.get(raw[0], raw[0]).args) if st.content.get(raw[0], raw[0]).op in ('tuple', 'list') else g.tup(*a[0].args)
    if g.kind(a[0]) in ('tuple', 'ndarray', 'list') or a[0].op == 'gamma' or True:
        return g.mk('astuple', a[0])


@bi('list')
def _list(I, a, kw, fr, st, e, raw):
    g = I.g
    if not a:
        return I.alloc(g.raw('list'), st)
    r = st.content.get(raw[0], raw[0])
    if r.op in ('tuple', 'list'):
        return I.alloc(g.raw('list', *r.args), st)
    return I.alloc(g.raw('aslist', a[0]), st)


@bi('dict')
def _dict(I, a, kw, fr, st, e, raw):
    g = I.g
    if not a:
        return I.alloc(g.raw('dict', *[(g.const(k), v) for k, v in kw.items()]), st)
    return I.alloc(g.raw('asdict', a[0]), st)


@bi('set', 'frozenset')
def _set(I, a, kw, fr, st, e, raw):
    g = I.g
    if not a:
        return I.alloc(g.raw('set'), st)
    return I.alloc(g.raw('asset', a[0]), st)


def _minmax(op):
    def h(I, a, kw, fr, st, e, raw):
        g = I.g
        if kw:
            return None
        if len(a) == 1:
            x = a[0]
            if x.op in ('tuple', 'list') and x.args:
                r = x.args[0]
                for y in x.args[1:]:
                    r = g.raw(op + '2', *sorted((r, y), key=lambda n: n.id))
                return r
            return g.mk(op, x, g.none)
        r = a[0]
        for y in a[1:]:
            if g.num(r) is not None and g.num(y) is not None:
                r = g.const(max(g.num(r), g.num(y)) if op == 'max' else min(g.num(r), g.num(y)))
            else:
                r = r if r is y else g.raw(op + '2', *sorted((r, y), key=lambda n: n.id))
                g.set_fact(r, rank=0)
        return r
    return h


BUILTIN['max'] = _minmax('max')
BUILTIN['min'] = _minmax('min')


@bi('sum')
def _bsum(I, a, kw, fr, st, e, raw):
    r = I.g.mk('sum', a[0], I.g.const(0) if I.g.rank(a[0]) not in (1, None) else I.g.none)
    return r if len(a) < 2 else I.g.mk('add', r, a[1])


@bi('int')
def _int(I, a, kw, fr, st, e, raw):
    if not a:
        return I.g.const(0)
    if I.g.num(a[0]) is not None:
        return I.g.const(int(I.g.num(a[0])))
    if I.g.kind(a[0]) == 'int':
        return a[0]
    return I.g.raw('int', a[0])


@bi('float')
def _float(I, a, kw, fr, st, e, raw):
    if a and I.g.num(a[0]) is not None:
        return I.g.const(float(I.g.num(a[0])))
    if a and a[0].op == 'const' and isinstance(a[0].args[0], str):
        try:
            return I.g.const(float(a[0].args[0]))
        except ValueError:
            return None
    if a and I.g.kind(a[0]) in ('float', 'int'):
        return a[0]
    return I.g.raw('float', a[0]) if a else I.g.const(0.0)


@bi('bool')
def _bool(I, a, kw, fr, st, e, raw):
    return I.g.mk('truth', a[0])


@bi('str')
def _str(I, a, kw, fr, st, e, raw):
    return I.g.text(I.g.fmt(a[0])) if len(a) == 1 and not kw else I.g.raw('str', *a)


@bi('repr')
def _repr(I, a, kw, fr, st, e, raw):
    return I.g.text(I.g.fmt(a[0], '', 'r'))


@bi('sorted')
def _sorted(I, a, kw, fr, st, e, raw):
    g = I.g
    if set(kw) - {'reverse'}:
        return None
    r = g.mk('sort', a[0])
    if 'reverse' in kw:
        v = kw['reverse']
        v = I.deref(v, st) if is_node(v) else v
        if not (is_node(v) and v.op == 'const'):
            return None
        if v.args[0]:
            r = g.mk('index', r, g.mk('slice', g.none, g.none, g.const(-1)))
    return I.alloc(r, st)


@bi('print')
def _print(I, a, kw, fr, st, e, raw):
    I.ev('print', fr, e, vals=a)
    return I.g.none


@bi('type')
def _type(I, a, kw, fr, st, e, raw):
    t = I.type_of(raw[0])
    if t is not None:
        return I.g.raw('cls', t)
    return I.g.raw('typeof', a[0])


@bi('callable')
def _callable(I, a, kw, fr, st, e, raw):
    return I.g.raw('callable', a[0])


@bi('hasattr')
def _hasattr(I, a, kw, fr, st, e, raw):
    g = I.g
    o, n = raw[0], a[1]
    if n.op != 'const':
        return None
    return hasattr_node(I, o, n.args[0], st)


def hasattr_node(I, o, name, st, own=False):
    g = I.g
    if o.op == 'gamma' and I.type_of(o) is not None:
        return g.mk('gamma', o.args[0], hasattr_node(I, o.args[1], name, st, own), hasattr_node(I, o.args[2], name, st, own))
    v = st.heap.get((o, name))

    def has(v):
        if v.op == 'undef':
            return g.false
        if v.op == 'gamma' and g.contains(v, lambda x: x.op == 'undef'):
            return g.mk('gamma', v.args[0], has(v.args[1]), has(v.args[2]))
        return g.true
    if v is not None:
        return has(v)
    t = I.type_of(o)
    if not own and t is not None and t.find(name)[0] is not None:
        return g.true
    if o.op == 'new' and st.epoch.get(o, 0) == 0:
        return g.false
    return g.raw('hasattr', o, name, st.epoch.get(o, 0))


@bi('getattr')
def _getattr(I, a, kw, fr, st, e, raw):
    g = I.g
    n = a[1]
    if n.op != 'const':
        return None
    if len(a) > 2:
        h = hasattr_node(I, raw[0], n.args[0], st)
        d = I.decide(h, fr)
        if d is False:
            return raw[2]
        v = I.load_attr(raw[0], n.args[0], fr, st, e)
        if d is True:
            return v
        return g.mk('gamma', h, v, raw[2])
    return I.load_attr(raw[0], n.args[0], fr, st, e)


@bi('setattr')
def _setattr(I, a, kw, fr, st, e, raw):
    if a[1].op != 'const':
        I.ev('setattr', fr, e, obj=raw[0], name='*', value=raw[2], val=a[2])
        return I.g.none
    I.store_attr(raw[0], a[1].args[0], raw[2], fr, st, e)
    return I.g.none


@bi('delattr')
def _delattr(I, a, kw, fr, st, e, raw):
    if a[1].op == 'const':
        I.ev('delattr', fr, e, obj=raw[0], name=a[1].args[0])
        st.heap[(raw[0], a[1].args[0])] = I.g.raw('undef', a[1].args[0])
        return I.g.none


@bi('any', 'all')
def _anyall(I, a, kw, fr, st, e, raw):
    n = I_name(e)
    d = a[0]
    if d.op in ('list', 'tuple'):
        r = I.g.const(n == 'all')
        for x in d.args:
            r = I.g.mk('and' if n == 'all' else 'or', r, I.g.mk('truth', x))
        return r
    return I.g.mk(n, d, I.g.none)


@bi('round')
def _bround(I, a, kw, fr, st, e, raw):
    return I.g.mk('round', *a)


@bi('next')
def _next(I, a, kw, fr, st, e, raw):
    I.ev('next', fr, e, target=raw[0])
    return I.g.raw('nextval', a[0], I.g.uid())


@bi('iter')
def _iter(I, a, kw, fr, st, e, raw):
    return raw[0]


@bi('id', 'hash')
def _id(I, a, kw, fr, st, e, raw):
    I.ev('identity', fr, e, fn=I_name(e), target=raw[0])
    return I.g.raw('call', I_name(e), I.g.uid(), a[0])


@bi('map')
def _map(I, a, kw, fr, st, e, raw):
    g = I.g
    if len(a) != 2:
        return None
    un = I.unrollable(raw[1], st)
    if un is not None:
        return I.alloc(g.raw('list', *[I.call(raw[0], [x], {}, fr, st, e) for x in un]), st)
    loop = g.uid()
    trip, el = I.iter_elem(a[1], loop, st)
    pc0 = fr.pc
    fr.pc = pc0 + ((g.raw('loop', loop), True),)
    v = I.deref(I.call(raw[0], [el], {}, fr, st, e), st)
    fr.pc = pc0
    k, body = g.bind(v, g.raw('pos', loop))
    return I.alloc(g.mk('map', k, trip, body, ()), st)


@bi('slice')
def _slice(I, a, kw, fr, st, e, raw):
    g = I.g
    if len(a) == 1:
        return g.mk('slice', g.none, a[0], g.none)
    return g.mk('slice', a[0], a[1], a[2] if len(a) > 2 else g.none)


@bi('vars', 'globals', 'locals', 'dir')
def _vars(I, a, kw, fr, st, e, raw):
    return I.g.raw('vars', *(raw[:1]))


@bi('divmod')
def _divmod(I, a, kw, fr, st, e, raw):
    return I.g.tup(I.g.mk('floordiv', a[0], a[1]), I.g.mk('mod', a[0], a[1]))


# ---- methods on values
INPLACE_METHODS = {'sort', 'fill', 'put', 'partition', 'resize', 'itemset', 'sort_indices', 'eliminate_zeros', 'sum_duplicates', 'setflags'}
LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem'}


def method(I, obj, name, args, kw, fr, st, e):
    g = I.g
    d = I.refine(I.deref(obj, st), fr)
    a = [I.deref(x, st) for x in args]
    k = g.kind(d)
    if d.op == 'gamma' and (g.kind(d) == 'unknown') and name not in LIST_MUT and name not in INPLACE_METHODS:
        # distribute over a choice of differently-typed values
        x1, x2 = method(I, d.args[1], name, args, kw, fr, st, e), method(I, d.args[2], name, args, kw, fr, st, e)
        if x1 is not None and x2 is not None:
            return g.mk('gamma', d.args[0], I.deref(x1, st), I.deref(x2, st))
    I.ev('method', fr, e, name=name, target=obj, val=d, args=args, vals=a)
    if name in LIST_MUT and k not in ('ndarray', 'csr', 'csc', 'str'):
        return list_method(I, obj, d, name, args, a, kw, fr, st, e)
    if name in INPLACE_METHODS and k not in ('str',):
        I.ev('inplace', fr, e, target=obj, val=g.raw(name, d, *a), maybe=False, how='.' + name + '()')
        nv = g.mk('sort', d) if name == 'sort' and not a and not kw else g.raw('m_' + name, d, *a)
        if name == 'sort' and not a and set(kw) == {'reverse'} and k not in ('ndarray', 'csr', 'csc'):
            v = I.deref(kw['reverse'], st)
            if v.op == 'const':
                nv = g.mk('sort', d)
                if v.args[0]:
                    nv = g.mk('index', nv, g.mk('slice', g.none, g.none, g.const(-1)))
        if name == 'fill' and a:
            nv = g.raw('filled', d, a[0])
        st.content[obj] = nv
        return g.none
    if name in ('sum', 'max', 'min', 'argmax', 'argmin', 'mean', 'prod', 'any', 'all'):
        if set(kw) - {'axis', 'dtype'}:
            return None
        return typed(I, g.mk(name, d, _ax(I, a, kw, st, 0)), kwd(I, kw, st, 'dtype'))
    if name == 'cumsum':
        if (a or kw) and g.rank(d) != 1:
            return None
        return typed(I, g.mk('cumsum', d), kwd(I, kw, st, 'dtype'))
    if name == 'argsort':
        if a and g.num(a[0]) is None:
            return None
        ax = _ax(I, a, kw, st, 0)
        return g.mk('argsort', d, ax if ax is not g.none else g.const(-1))
    if name == 'reshape':
        if 'order' in kw:
            return None
        sh = a[0] if len(a) == 1 else g.tup(*a)
        return g.mk('reshape', d, sh)
    if name == 'ravel':
        if a or kw:
            return None
        r = g.mk('ravel', d)
        return obj if r is d else r
    if name == 'flatten':
        if a or kw:
            return None
        return I.alloc(g.mk('ravel', d), st)
    if name == 'squeeze':
        ax = _ax(I, a, kw, st, 0)
        r = g.mk('squeeze', d) if ax is g.none else g.mk('squeeze', d, ax)
        return obj if r is d else r
    if name == 'astype':
        dt = as_dtype(I, a[0] if a else kwd(I, kw, st, 'dtype'))
        c = kwd(I, kw, st, 'copy')
        r = g.mk('astype', d, dt)
        if c is not None and c.op == 'const' and c.args[0] is False:
            return obj if r is d else r
        if c is not None and c.op != 'const' and r is d:
            return g.mk('gamma', c, I.alloc(r, st), obj)
        return I.alloc(r, st)
    if name == 'copy':
        return I.alloc(d, st)
    if name in ('dot', '__matmul__'):
        return g.mk('matmul', d, a[0])
    if name in ('toarray', 'todense'):
        if k == 'ndarray':
            return None
        v = g.mk('toarray', d)
        return I.alloc(v, st) if name == 'toarray' else v
    if name == 'tocsc' and k in ('csr', 'csc'):
        r = g.mk('csc', d)
        return obj if r is d else r
    if name == 'tocsr' and k in ('csr', 'csc'):
        r = g.mk('csr', d)
        return obj if r is d else r
    if name == 'getcol' and k in ('csr', 'csc'):
        return g.index(d, g.slice(), a[0])
    if name == 'getrow' and k in ('csr', 'csc'):
        return g.index(d, a[0])
    if name == 'nonzero':
        return g.tup(g.mk('nonzero', d)) if g.rank(d) == 1 else None
    if name == 'take':
        return g.mk('index', d, a[0]) if len(a) == 1 and not kw and g.rank(d) == 1 else None
    if name == 'transpose' and not a:
        return g.mk('T', d)
    if name == 'to_numpy' and k in ('df', 'series'):
        return attr(I, d, 'values', obj, st)
    if name == 'tolist' and not a:
        return I.alloc(g.raw('aslist', d), st)
    if name == 'clip' and len(a) == 2:
        return g.mk('clip', d, *a)
    if name == 'round':
        return g.mk('round', d, *a)
    if name == 'item' and not a:
        return g.raw('item', d)
    if name == 'format':
        return format_text(g, d, a, {k_: I.deref(v, st) for k_, v in kw.items()})
    if name == 'join':
        return g.raw('join', d, *a)
    if name == 'keys':
        return g.raw('dictkeys', d)
    if name == 'values' and k not in ('df', 'series'):
        return g.raw('dictvalues', d)
    if name == 'items':
        return g.raw('dictitems', d)
    if name == 'get' and d.op == 'dict' and a and a[0].op == 'const':
        for kk, vv in d.args:
            if kk is a[0]:
                return vv
        if all(kk.op == 'const' for kk, _ in d.args):
            return a[1] if len(a) > 1 else g.none
    if name == 'compress' and g.rank(d) == 1:
        return g.mk('index', d, a[0])
    if name == 'conj':
        return d
    if name in SPARSE_PURE and (k in ('csr', 'csc') or d.op == 'mcall' and d.args[0] in SPARSE_PURE):
        return g.raw('mcall', name, tuple(sorted(kw)), d, *a, *[I.deref(kw[k_], st) for k_ in sorted(kw)])
    if name in METHODS and k in ('ndarray', 'csr', 'csc', 'list', 'str', 'dict', 'df', 'tuple', 'set', 'series', 'float', 'int'):
        I.unmodelled.setdefault('.' + name, (fr.module.rel, e.lineno))
        return g.raw('mcall', name, tuple(sorted(kw)), d, *a, *[I.deref(kw[k_], st) for k_ in sorted(kw)])
    return None


def list_method(I, obj, d, name, args, a, kw, fr, st, e):
    g = I.g
    I.ev('listmut', fr, e, target=obj, how=name, vals=a)
    if name == 'append':
        if d.op == 'list':
            cur = st.content.get(obj, d)
            st.content[obj] = g.raw('list', *((cur.args if cur.op == 'list' else d.args) + (args[0],)))
        else:
            st.content[obj] = g.raw('listcat', d, g.raw('list', a[0]))
        return g.none
    if name == 'extend':
        if d.op == 'list' and a[0].op in ('list', 'tuple'):
            st.content[obj] = g.raw('list', *(d.args + a[0].args))
        else:
            st.content[obj] = g.raw('listcat', d, a[0])
        return g.none
    if name == 'pop' and d.op == 'list' and d.args and (not a or g.num(a[0]) in (-1, 0)):
        i = -1 if not a else g.num(a[0])
        cur = st.content.get(obj, d)
        xs = list(cur.args if cur.op == 'list' else d.args)
        x = xs.pop(i)
        st.content[obj] = g.raw('list', *xs)
        return x
    st.content[obj] = g.raw('mutated', name, d, g.uid(), *a)
    return g.raw('mcall', name, g.uid(), d, *a)


def format_text(g, tmpl, args, kw):
    """str.format with a constant template as a concatenation"""
    import string
    bail = lambda: g.raw('format', tmpl, *args, *kw.values())
    if tmpl.op != 'const' or not isinstance(tmpl.args[0], str):
        return bail()
    parts, auto = [], 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(tmpl.args[0]):
            if lit:
                parts.append(g.const(lit))
            if name is None:
                continue
            if '{' in (spec or '') or '.' in name or '[' in name:
                return bail()
            if name == '':
                v = args[auto]
                auto += 1
            elif name.isdigit():
                v = args[int(name)]
            else:
                v = kw[name]
            parts.append(g.fmt(v, spec or '', conv or ''))
    except (ValueError, IndexError, KeyError):
        return bail()
    return g.text(*parts)
